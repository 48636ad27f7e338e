"""C08: which TLS sessions are trusted (spec/Tls.tla)."""
import base64, os, random
import core, der, p_c14, sim, traces

WORK = ["/tmp"]
GOODT = ("200101000000Z", "491231235959Z")
TIMES = {0: GOODT, -1: ("20900101000000Z", "20991231000000Z"), 1: ("100101000000Z", "150101000000Z")}
CE = {"connect": 0, "raw": 1, "disconnect": 2, "fail": 3}


class C:
    """a certificate of the specification and the real one"""
    memo = {}

    def __init__(self, id, key, subject, issuer, by, signer, ca, t, names, cn, others=(), ver3=True, exts=()):
        self.id, self.key, self.by, self.ca, self.t, self.names, self.cn = id, key, by, ca, t, list(names), cn
        self.subject = subject
        a = (tuple(subject), tuple(issuer), key, signer, id, t, ca, tuple(names), tuple(others), ver3, tuple(exts))
        if a not in C.memo:
            if len(C.memo) > 3000:
                C.memo.clear()
            C.memo[a] = der.cert(subject, issuer, der.key(key), der.key(signer), 1000 + id, *TIMES[t],
                                 ca=(bool(ca) if ver3 else None), dns=names, others=others, exts=exts)
        self.der = C.memo[a]

    def rec(self):
        return {"id": self.id, "by": self.by, "ca": self.ca, "t": self.t, "names": [list(x) for x in self.names], "cn": list(self.cn)}

    def pem(self):
        return der.pem("CERTIFICATE", self.der)


def nm(cn):
    return [("O", b"Check"), ("CN", cn)]


ROOT = C(1, "root", nm(b"Root"), nm(b"Root"), 1, "root", 1, 0, [], b"Root")
INTER = {t: C(2, "inter", nm(b"Inter"), nm(b"Root"), 1, "root", 1, t, [], b"Inter") for t in (-1, 0, 1)}
OTHER = C(4, "other", nm(b"Other"), nm(b"Other"), 4, "other", 1, 0, [], b"Other")


IDLE = C(5, "idle", nm(b"Idle"), nm(b"Idle"), 5, "idle", 1, 0, [], b"Idle")


def noca(dom):
    return C(3, "noca", nm(dom[:60] or b"x"), nm(b"Root"), 1, "root", 0, 0, [dom], dom)


def chain(c, t, names, cn, dom, others=(), ver3=True, rev=False):
    """-> certificates the server sends (ModelTls!Chain)"""
    def leaf(by, signer, issuer):
        sub = [("O", b"Srv")] + ([("CN", cn)] if cn else [])
        return C(9, "leaf", sub, sub if issuer is None else issuer, by, signer, 0, t, names, cn, others, ver3)
    nc = noca(dom)
    return {
        "root": lambda: [leaf(1, "root", nm(b"Root"))],
        "full": lambda: [leaf(1, "root", nm(b"Root")), ROOT],
        "unknown": lambda: [leaf(0, "stranger", nm(b"Nobody"))],
        "forged": lambda: [leaf(0, "stranger", nm(b"Root")), ROOT],
        "other": lambda: [leaf(4, "other", nm(b"Other")), OTHER],
        "self": lambda: [leaf(9, "leaf", None)],
        "inter": lambda: [leaf(2, "inter", nm(b"Inter")), INTER[0]],
        "interold": lambda: [leaf(2, "inter", nm(b"Inter")), INTER[1]],
        "internew": lambda: [leaf(2, "inter", nm(b"Inter")), INTER[-1]],
        "interfull": lambda: [leaf(2, "inter", nm(b"Inter")), INTER[0], ROOT],
        "missing": lambda: [leaf(2, "inter", nm(b"Inter"))],
        "noca": lambda: [leaf(3, "noca", nc.subject), nc],
        "extra": lambda: [leaf(0, "stranger", nm(b"Nobody")), OTHER, ROOT],
    }[c]()


CHAINS = ["root", "full", "unknown", "forged", "other", "self", "inter", "interold", "internew", "interfull", "missing", "noca", "extra"]


class Tls:
    def __init__(self, h, r, jid):
        self.r = r
        self.s = s = sim.Sim(h)
        s.c("k.new", 0, 0)
        s.c("k.jid", 0, jid)
        s.c("k.pass", 0, b"secret")
        self.dir = os.path.join(WORK[0], "t%d" % os.getpid())
        os.makedirs(self.dir, exist_ok=True)
        self.ca = None
        self.lastp = None
        self.tr = self.s.tr
        self.certs = []

    def file(self, name, text):
        p = os.path.join(self.dir, name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def anchors(self, kind, ch):
        """installs the anchors; -> certificates"""
        s = self.s
        a = {"root": [ROOT], "none": [], "wrong": [OTHER], "pin": [ch[0]], "both": [OTHER, ROOT], "dir": [ROOT], "dirwrong": [OTHER],
             "rootinter": [ROOT, INTER[0]], "nofile": [], "dirfile": [OTHER, ROOT]}[kind]
        cd = os.path.join(self.dir, "empty")
        os.makedirs(cd, exist_ok=True)
        if kind in ("dir", "dirwrong", "dirfile"):
            x = a[0] if kind != "dirfile" else ROOT
            cd = os.path.join(self.dir, "d%d" % x.id)
            if not os.path.isdir(cd):
                os.makedirs(cd)
                with open(os.path.join(cd, der.namehash(x.subject) + ".0"), "w") as f:
                    f.write(x.pem())
            s.c("k.capath", 0, cd.encode())
            if kind == "dirfile":
                s.c("k.cafile", 0, self.file("other.pem", OTHER.pem()).encode())
            elif self.ca:
                s.c("k.cafile", 0, self.file("idle.pem", IDLE.pem()).encode())
        else:
            if self.ca:
                s.c("k.capath", 0, cd.encode())
            if kind == "none":      # settings can't be taken back
                if self.ca:
                    s.c("k.cafile", 0, self.file("idle.pem", IDLE.pem()).encode())
            elif kind == "nofile":
                s.c("k.cafile", 0, (self.dir + "/nothing.pem").encode())
            else:
                s.c("k.cafile", 0, self.file("ca-%s.pem" % kind, "".join(x.pem() for x in a)).encode())
        self.ca = kind
        return a

    def pred(self):
        p = next((x for x in self.s.pred if x[0] == 0), None)
        if p and p[1:5] != self.lastp:
            self.lastp = p[1:5]
            self.s.add("pred", up=p[2], disc=p[3], sec=p[4])
        return p

    def run(self, ms=1):
        self.s.run(0)
        p = self.pred()
        self.s.clock(ms)
        return p

    def attempt(self, q):
        """one dial with the configuration q"""
        s, r = self.s, self.r
        ch = q["chain"]
        self.certs = [c for c in self.certs if c.id != 9] + ch
        an = self.anchors(q["anch"], ch)
        self.certs += an
        mode = q["mode"]
        fl = (8 if q["trust"] else 0) | (4 if mode == "ssl" or q.get("sslraw") else 0) | 32 | (2 if q.get("mand") and mode != "ssl" else 0) | (16 if q.get("lega") else 0)
        if s.c("k.flags", 0, fl).get("rc"):
            return False
        cb = q["cb"]
        if cb:
            s.c("k.certfail", 0, cb[-1], *(["".join(str(x) for x in cb[:-1])] if len(cb) > 1 else []))
        else:
            s.c("k.certfail", 0, -1)
        # never rewrite a file a running handshake may read: a new name for every attempt
        pem = self.file("chain.pem", "".join(c.pem() for c in ch))
        key = self.file("leaf.key", der.key("leaf").pem())
        tm = q.get("tm", "ok")
        s.c("n.tlscfg", tm, pem, key, q.get("vmin", "1.2"), q.get("ver", "1.3"), "-", 1 if mode == "ssl" else 0)
        for h, a in q.get("hosts", ()):
            s.c("n.host", h, a)
        if "dns" in q:
            s.c("n.dns", q["dns"])
        if "fates" in q:
            for a, f in q["fates"]:
                s.c("n.fate", a, f)
        s.add("dial", rc=0, mode=mode, trust=1 if q["trust"] else 0, cb=1 if cb else 0, chain=[c.rec() for c in ch], anch=[c.rec() for c in an],
              dom=list(q["dom"]), srv=1 if tm == "ok" or tm[:3] == "cut" else 0)
        at = len(s.tr) - 1
        cs = len(s.tr)
        d = s.c("k.raw" if mode == "raw" else "k.client", 0, q.get("host", b"127.0.0.1"), q.get("port", 5222), 0)
        s.tr[at]["rc"] = d["rc"]
        self.lastp = None
        self.pred()
        if d["rc"]:
            return True
        self.sv = sv = sim.Server(pre=["starttls", "m:PLAIN", "legacy"], tls=["m:PLAIN"], jid="u@x/r")
        early = q.get("inject")
        if early:
            def st(s, x):
                s.send(x["fd"], "<proceed xmlns='%s'/>" % sim.NS["tls"] + sim.features("m:PLAIN"), k="proceed")
                s.tls_on(x["fd"])
            sv.hooks["starttls"] = st
        started = False
        said = set()
        idle = 0
        for n in range(60):
            m = len(s.tr)
            p = self.run(q.get("ms", 1))
            if p is None:
                break
            if mode == "raw" and not started and any(e["e"] == "cb" and e["ce"] == "raw" for e in s.tr[cs:]):
                started = True
                fd = [e["fd"] for e in s.tr if e["e"] == "connect"][-1]
                s.tls_on(fd)
                rc = s.c("k.tls", 0)["rc"]
                s.add("rc", rc=1 if rc else 0)
                self.pred()
                if rc == 0 or r.random() < 0.5:
                    s.c("k.open", 0)
            while s.inbox:
                x = s.inbox.pop(0)
                if s.live(x["fd"]):
                    sv(s, x)
            for fd, l in s.links.items():
                if l.tls and not l.closed and not l.sec and l.hello and fd not in said and q.get("clear", 1):
                    said.add(fd)
                    s.c("n.rxraw", fd, (sim.hdr() + sim.features("m:PLAIN")).encode())
            if p[3] or p[2] and (mode != "raw" or n > 20):
                break
            idle = idle + 1 if len(s.tr) - m <= 1 else 0
            if idle > 4:
                s.clock(700)
            if idle > 16:
                break
        up = p and p[2]
        # a failed handshake is over after the time-outs of the library, at the latest
        for _ in range(3):
            self.run(1000)
        if up and self.pred()[2]:
            s.c("k.sendraw", 0, b"<message/>")
            self.run(1)
            s.c("k.disconnect", 0)
            self.run(1)
            while s.inbox:
                x = s.inbox.pop(0)
                if s.live(x["fd"]):
                    sv(s, x)
        for _ in range(10):
            p = self.run(1000)
            if p is None or p[3]:
                break
            while s.inbox:
                x = s.inbox.pop(0)
                if s.live(x["fd"]) and not q.get("stuck"):
                    sv(s, x)
        s.add("end")
        return bool(p and p[3])

    def which(self, hexpem):
        try:
            t = bytes.fromhex(hexpem).decode()
            d = base64.b64decode("".join(l for l in t.splitlines() if not l.startswith("-----")))
        except ValueError:
            return 0
        return next((c.id for c in self.certs[::-1] if c.der == d), 0)

    def compact(self):
        out = []
        # which certificates were around at which time
        for e in sim.consumed(self.s.tr):
            k = e["e"]
            if k in ("dial", "end", "rc"):
                out.append({x: v for x, v in e.items() if x != "t"})
            elif k == "connect":
                out.append(dict(e=k, fd=e["fd"]))
            elif k == "rx" and e.get("k") == "proceed":
                out.append(dict(e="proceed"))
            elif k in ("hello", "close"):
                out.append(dict(e=k, fd=e["fd"]))
            elif k == "certfail":
                out.append(dict(e=k, id=e.get("id", 0), ans=e["ans"], msg=e.get("msg") or ""))
            elif k == "tx":
                out.append(dict(e=k, fd=e["fd"], k=e["k"], sec=e["sec"]))
            elif k == "clear":
                out.append(dict(e="tx", fd=e["fd"], k="close" if e["raw"].replace(b" ", b"") == b"</stream:stream>" else "clear", sec=0))
            elif k == "cb":
                p = next((x for x in e["p"] if x[0] == 0), None)
                out.append(dict(e=k, ce=CE.get(e["ce"], 9), sec=p[4] if p else 0))
            elif k == "pred":
                out.append(dict(e=k, up=e["up"], disc=e["disc"], sec=e["sec"]))
        return out


def tag_ids(t):
    """names the certificates of the callbacks (the chain of an attempt is only known then)"""
    for e in t.s.tr:
        if e["e"] == "certfail" and "id" not in e:
            e["id"] = t.which(e.get("pem") or "")


def cell(h, job):
    """a cell of ModelTls: the attempt, then another without callback and trust flag"""
    c, tm, k, a, cb, trust, mode, good, names, cn, ver = job
    r = random.Random(str(job))
    dom = b"ab.c.d"
    t = Tls(h, r, b"u@ab.c.d/r")
    names = [bytes(x) for x in names]
    ch = chain(c, tm, names, bytes(cn), dom)
    q = dict(chain=ch, anch=a, cb=cb, trust=trust, mode=mode, dom=dom, ver=ver)
    if t.attempt(q):
        tag_ids(t)
        t.attempt(dict(q, cb=[], trust=0))
    tag_ids(t)
    tr = t.compact()
    return {"tr": tr, "good": bool(good)}


def names_for(r, d, host):
    """dNSNames that resemble d"""
    l = d.split(b".")
    rest = b".".join(l[1:])
    f = l[0] or b"x"
    return r.choice([
        d, d, d, d.upper(), d.swapcase(), b"*." + rest, b"*." + rest, b"*." + rest.upper(), b"x." + d, b"*." + d, f[:1] + b"*." + rest, b"*" + f[-1:] + b"." + rest,
        f + b"*." + rest, f[:1] + b"*" + f[-1:] + b"." + rest, b".".join([f] + [b"*"] * 1 + l[2:]), b".".join(l[:-1] + [b"*"]), b"*", b"*.*", b"**." + rest,
        d + b".", b"." + d, b"." + rest, d + b"\0.evil.net", d + b"\0", b"\0" + d, b"evil" + d, d[:-1], d[1:], rest, host, b"*." + host.split(b".", 1)[-1], b"xn--*." + rest,
        b"", b" " + d, d + b" ", b"*." + b".".join(l[2:]), b"*.*." + b".".join(l[2:]), d + b".evil.net", d.replace(b".", b"\xe3\x80\x82"), b"*." + f + b"." + rest])


DOMS = [b"example.org"] * 8 + [b"EXAMPLE.Org", b"sub.example.org", b"x.y.example.org", b"a.bc", b".example.org", b"..example.org", b"10.0.0.1", b"example.org.", b"xn--bcher-kva.example", b"*.example.org",
                               b"b\xc3\xbccher.example", b"u.example.org", b"localhost", b"example .org"]


def free(h, job):
    r = random.Random(job)
    dom = r.choice(DOMS)
    t = Tls(h, r, (b"u@" if r.random() < 0.8 else b"") + dom + (b"/r" if r.random() < 0.7 else b""))
    host = r.choice([b"host.example.net", b"xmpp.example.org", b"srv.example.org"])
    good = False
    for n in range(r.choice([1, 1, 2, 3])):
        x = r.random()
        if x < 0.25:
            names = [dom]
        else:
            names = [names_for(r, dom, host) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
        cn = r.choice([b"", b"x", dom, dom, names_for(r, dom, host)])[:60]
        others = [o for o in (der.tlv(0x87, b"\x0a\0\0\1"), der.tlv(0x81, b"u@" + dom), der.tlv(0x86, b"xmpp:" + dom), der.tlv(0x86, dom),
                              der.tlv(0xa0, der.oid("1.3.6.1.5.5.7.8.5"), der.tlv(0xa0, der.tlv(0x0c, dom)))) if r.random() < 0.07]
        tm = r.choice([0, 0, 0, 0, 0, 1, -1])
        c = r.choice(["root"] * 6 + ["inter"] * 4 + CHAINS)
        ch = chain(c, tm, names, cn, dom, others, r.random() < 0.9)
        q = dict(chain=ch, dom=dom, anch=r.choice(["root"] * 8 + ["none", "wrong", "pin", "both", "dir", "dir", "dirwrong", "rootinter", "nofile", "dirfile"]),
                 cb=r.choice([[]] * 5 + [[1], [1], [0], [1, 0], [0, 1], [1, 1, 0], [2], [1, 1, 1, 1, 0]]), trust=r.random() < 0.1,
                 mode=r.choice(["starttls", "starttls", "ssl", "raw"]), ver=r.choice(["1.2", "1.3", "1.3"]),
                 tm=r.choice(["ok"] * 12 + ["garbage", "close", "rst", "alert", "silent"] + ["cut%d" % r.choice([1, 5, 50, 500, 1000, 1500, 2500])] * 2),
                 clear=r.random() < 0.7, mand=r.random() < 0.2, lega=r.random() < 0.2, inject=r.random() < 0.1, stuck=r.random() < 0.3, sslraw=r.random() < 0.2, ms=r.choice([1, 1, 1, 300]))
        x = r.random()
        if x < 0.2:
            q.update(host=host, hosts=[(host, "10.0.0.3,10.0.0.4")], fates=[("10.0.0.3", r.choice(["accept", "refuse"]))])
        elif x < 0.4:
            q.update(host=None, hosts=[(host, "10.0.0.5"), (dom, "10.0.0.6")], port=0,
                     dns=p_c14.answer(r, [{"p": 1, "w": 0, "port": 5222, "t": host.decode()}]) if r.random() < 0.7 else None)
        else:
            q.update(host=b"127.0.0.1")
        ok = t.attempt(q)
        tag_ids(t)
        if not ok:
            break
    return {"tr": t.compact(), "good": False}


MODEL = ("INIT Init\nNEXT Next\nINVARIANTS Agrees EndOk Honest\nCHECK_DEADLOCK FALSE\n"
         "CONSTANTS Mut=\"%s\" NameKinds<-%s Chains<-%s AnchKinds<-%s Exp=0\n")
SIM = "INIT Init\nNEXT Stop\nINVARIANT Export\nCHECK_DEADLOCK FALSE\nCONSTANTS Mut=\"none\" NameKinds<-AllKinds Chains<-AllChains AnchKinds<-AllAnch Exp=1\n"
MUTS = ["notime", "nohost", "partial", "cn", "nul", "nocb", "ignore", "once", "continue", "linger", "stick"]


def run(ck):
    import tlc
    WORK[0] = os.path.join(ck.work, "tls")
    os.makedirs(WORK[0], exist_ok=True)
    n = 1500 if ck.quick else 60000
    ck.model("ModelTls", MODEL % ("none", "AllKinds", "AllChains", "FewAnch" if ck.quick else "AllAnch"), timeout=3000)
    for m in MUTS[:0] if ck.quick else MUTS:
        x = ck.tlc("ModelTls", MODEL % (m, "AllKinds", "FewChains", "FewAnch"), name="ModelTls_" + m, timeout=600)
        if not x.violated:
            raise tlc.TlcError("ModelTls does not notice a client with '%s'" % m)
    x = ck.tlc("ModelTls", SIM, name="ModelTls_cells", count=False, timeout=600, workers=1)
    cells = [tlc.parse_value(l)[1:] for l in tlc.tagged(x, "PROG")]
    ck.cov["cells"] = len(cells)
    if ck.quick:
        near = [c for c in cells if c[5] == 0 and (c[0] not in ("root", "full", "inter")) + (c[1] != 0) + (c[2] not in ("exact", "case", "wild", "second", "cn"))
                + (c[3] != "root" and not (c[0], c[3]) == ("self", "pin")) <= 1]
        ck.cov["cells_with_at_most_one_defect"] = len(near)
        cells = near + ck.rng.sample(cells, 1200)
    jobs = [tuple(c) + (v,) for c in cells for v in ((ck.rng.choice(["1.2", "1.3"]),) if ck.quick else ("1.2", "1.3"))]
    cs = traces.run(ck, "CasesTls", jobs, cell, name="cells")
    cs += traces.run(ck, "CasesTls", ["C08-%d-%d" % (ck.seed, i) for i in range(n)], free, name="free")
    ok = [c for c in cs if c]
    ev = [e for c in ok for e in c["tr"]]
    ck.cov["handshakes"] = sum(1 for e in ev if e["e"] == "hello")
    ck.cov["secured"] = sum(1 for e in ev if e["e"] == "pred" and e["sec"])
    ck.cov["asked"] = sum(1 for e in ev if e["e"] == "certfail")
    ck.cov["good_cells"] = sum(1 for c in ok if c["good"])
    ck.cov["good_cells_secured"] = sum(1 for c in ok if c["good"] and any(e["e"] == "pred" and e["sec"] for e in c["tr"]))
    ck.samples += [c["tr"][:40] for c in (ok[0], ok[-1])]

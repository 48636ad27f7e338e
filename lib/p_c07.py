"""C07: what the client says to authenticate (spec/Sasl.tla)."""
import base64, html, os, random
import core, der, pure, sim, tlc, vh

WORK = ["/tmp"]
NS = sim.NS
# passwords whose SASLprep form differs (KNOWN_FINDINGS.txt)
UNPREP = [b"I\xc2\xadX", b"\xc2\xaa", b"\xe2\x85\xa8", b"a\xc2\xa0b"]
ALGS = {"SCRAM-SHA-1": "sha1", "SCRAM-SHA-256": "sha256", "SCRAM-SHA-512": "sha512"}


def esc(b):
    return html.escape(b.decode("utf-8"), quote=True)


class Srv(sim.Server):
    """a server which records what every attempt to authenticate consists of"""

    def __init__(self, rec, r, script, **kw):
        super().__init__(**kw)
        self.rec, self.r, self.script = rec, r, script
        self.cur = None

    def fail(self, s, fd):
        s.send(fd, "<failure xmlns='%s'><not-authorized/></failure>" % NS["sasl"], k="failure")

    def challenge(self, s, fd, data, raw=None):
        t = base64.b64encode(data) if raw is None else raw
        self.cur["xs"].append({"ch": list(t), "rs": []})
        s.send(fd, b"<challenge xmlns='%s'>%s</challenge>" % (NS["sasl"].encode(), t), k="challenge")

    def on_auth(self, s, x):
        fd, m, r = x["fd"], x["mech"], self.r
        q = self.rec
        first = list(x["data"].encode())
        c = self.cur = {"kind": "", "node": q["node"], "pw": q["pw"], "first": first, "xs": []}
        self.mech = m
        q["cases"].append(c)
        tls = [e for e in s.tr if e["e"] == "tls" and e["fd"] == fd]
        last = self.script.pop(0) if self.script else "fail"
        self.last = last
        if m.startswith("SCRAM"):
            c.update(kind="scram", alg=ALGS[m.replace("-PLUS", "")], plus=1 if m.endswith("-PLUS") else 0, sec=1 if tls else 0,
                     offplus=1 if any(f.startswith("m:") and f.endswith("-PLUS") for f in self.offered) else 0, tls13=0, unique=[], exporter=[])
            if tls:
                e = tls[-1]
                c.update(tls13=1 if "1.3" in e["ver"] else 0, unique=list(bytes.fromhex(e.get("unique") or "")),
                         exporter=list(bytes.fromhex(e.get("exporter") or "")))
            try:
                g, b, bare = base64.b64decode(x["data"]).split(b",", 2)
                nonce = bare.split(b",r=", 1)[1]
            except (ValueError, IndexError):
                return self.fail(s, fd)
            q["nonces"].append(nonce)
            if last == "early":
                return self.fail(s, fd)
            self.challenge(s, fd, *self.scram_first(nonce))
        elif m == "DIGEST-MD5":
            c.update(kind="digest", domain=q["domain"])
            if last == "early":
                return self.fail(s, fd)
            self.challenge(s, fd, *self.digest_first())
        elif m in ("PLAIN", "ANONYMOUS", "EXTERNAL"):
            c.update(kind=m.lower(), addrs=q["addrs"], bare=q["bare"])
            if last == "ok":
                self.success(s, fd)
            else:
                self.fail(s, fd)
        else:
            c.update(kind="nonces", list=[[0], [0]])     # no such mechanism was offered

    def scram_first(self, nonce):
        r = self.r
        pr = "".join(chr(c) for c in range(33, 127) if c != 44)
        ext = "".join(r.choice(pr) for _ in range(r.choice([1, 4, 16, 24, 40, 200]))).encode()
        salt = r.randbytes(r.choice([1, 4, 8, 16, 16, 16, 20, 33, 64, 100, 300]))
        it = r.choice([1, 2, 3, 10, 64, 64, 1000, 4096, 4096, 10000]) if r.random() < .97 else r.choice([99999, 100000])
        if self.rec.get("stuck"):
            salt = b"salt"
        sb = base64.b64encode(salt)
        y = r.random()
        if y < 0.6:
            return (b"r=" + nonce + ext + b",s=" + sb + b",i=%d" % it,)
        if y < 0.7:
            return (b"r=" + nonce + ext + b",s=" + sb + b",i=%d" % it + r.choice([b",e=x", b",x=abc=def", b",z=,q=1", b",x=" + b"y" * 500]),)
        bad = [
            b"r=" + nonce[:-1] + ext + b",s=" + sb + b",i=%d" % it,
            b"r=" + nonce[:-1] + (b"A" if nonce[-1:] != b"A" else b"B") + ext + b",s=" + sb + b",i=%d" % it,
            b"r=" + ext + b",s=" + sb + b",i=%d" % it,
            b"r=" + ext + nonce + b",s=" + sb + b",i=%d" % it,
            b"r=" + nonce.swapcase() + ext + b",s=" + sb + b",i=%d" % it,
            b"r=,s=" + sb + b",i=%d" % it,
            b"r=" + nonce + b",s=" + sb + b",i=%d" % it,
            b"r=" + nonce + ext + b",s=" + sb,
            b"r=" + nonce + ext + b",i=%d" % it,
            b"s=" + sb + b",i=%d" % it,
            b"r=" + nonce + ext + b",s=" + sb + b",i=0",
            b"r=" + nonce + ext + b",s=" + sb + b",i=-1",
            b"r=" + nonce + ext + b",s=" + sb + b",i=12x",
            b"r=" + nonce + ext + b",s=" + sb + b",i=",
            b"r=" + nonce + ext + b",s=" + sb + b",i=007",
            b"r=" + nonce + ext + b",s=" + sb[:-1] + b"!,i=%d" % it,
            b"r=" + nonce + ext + b",s=A,i=%d" % it,
            b"r=" + nonce + ext + b",s=,i=%d" % it,
            b"m=x,r=" + nonce + ext + b",s=" + sb + b",i=%d" % it,
            b"r=" + nonce + ext + b",m=x,s=" + sb + b",i=%d" % it,
            b"i=%d" % it + b",s=" + sb + b",r=" + nonce + ext,
            b"e=other-error", b"", b",", b"r=" + nonce + ext, b"r" + nonce,
        ]
        d = r.choice(bad)
        if r.random() < 0.05:
            return (d, r.choice([b"", b"=", b"====", b"a", b"!!!!", base64.b64encode(d)[:-1]]))
        return (d,)

    def digest_first(self):
        r, q = self.r, self.rec
        pr = [c for c in range(32, 127)]
        rnd = lambda n: bytes(r.choice(pr) for _ in range(n))
        qu = lambda v: b'"' + b"".join(b"\\" + bytes([c]) if c in b'"\\' else bytes([c]) for c in v) + b'"'
        nonce = r.choice([rnd(r.choice([1, 5, 16, 40, 90, 200])), base64.b64encode(r.randbytes(15)), b"abc", b'a"b\\c', b"x,y=z", b"\\", b'"'])
        if q.get("stuck"):
            nonce = b"stuck-server"
        d = [b"nonce=" + qu(nonce)]
        y = r.random()
        realm = r.choice([bytes(q["domain"]), rnd(r.choice([1, 8, 30])), b"Some Realm", b'q"u\\o,t=e', b"", b"two words", "r\u00e9alm".encode()])
        if y < 0.65:
            d.append(b"realm=" + qu(realm))
        elif y < 0.75:
            d += [b"realm=" + qu(realm), b'realm="other"', b"realm=" + qu(rnd(4))]
        y = r.random()
        if y < 0.75:
            d.append(r.choice([b'qop="auth"', b"qop=auth", b'qop="auth"', b'qop="auth,auth-int"', b'qop="auth-int,auth"', b'qop="auth-conf, auth-int , auth"']))
        elif y < 0.85:
            d.append(r.choice([b'qop="auth-int"', b'qop="auth-int,auth-conf"', b'qop="authx"', b'qop="xauth,auth-conf"']))
        if r.random() < 0.75:
            d.append(r.choice([b"charset=utf-8"]))
        d.append(b"algorithm=md5-sess" if r.random() < 0.95 else b"algorithm=md5")
        if r.random() < 0.2:
            d.append(r.choice([b"maxbuf=65536", b"stale=true", b'cipher="3des,rc4"', b"x-thing=" + qu(rnd(9)), b"y=1", b'cnonce="evil"', b'response=00', b'username="eve"',
                               b"nc=00000007", b'digest-uri="xmpp/evil"', b'authzid="eve"']))
        if r.random() < 0.06:
            d = [x for x in d if not x.startswith(b"nonce=")]
        r.shuffle(d)
        sep = r.choice([b",", b",", b",", b", ", b" , ", b",\t", b" ,, ", b",\r\n "])
        t = sep.join(d)
        y = r.random()
        if y < 0.04:
            t = t[:-1]
        elif y < 0.06:
            t = t.replace(b"=", b"", 1)
        elif y < 0.08:
            return (t, base64.b64encode(t)[:-1])
        elif y < 0.12:
            t = r.choice([b",", b" "]) + t + r.choice([b"", b","])
        return (t,)

    def on_response(self, s, x):
        fd = x["fd"]
        c = self.cur
        if c is None:
            return
        if not c["xs"]:
            c["xs"].append({"ch": [], "rs": []})
        c["xs"][-1]["rs"].append(list((x["data"] or "").encode()))
        if c["kind"] == "digest":
            try:
                t = base64.b64decode(x["data"])
                if b'cnonce="' in t:
                    self.rec["nonces"].append(t.split(b'cnonce="')[1].split(b'"')[0])
            except ValueError:
                pass
        if self.last == "again" and len(c["xs"]) == 1 and c["kind"] == "scram":
            self.challenge(s, fd, *self.scram_first(b"zzz"))
        elif self.last == "again" and len(c["xs"]) == 1 and c["kind"] == "digest":
            self.challenge(s, fd, b"rspauth=00112233445566778899aabbccddeeff")
        elif self.last == "ok":
            if c["kind"] == "digest" and len(c["xs"]) == 1:
                return self.challenge(s, fd, b"rspauth=00112233445566778899aabbccddeeff")
            self.success(s, fd)
        else:
            self.fail(s, fd)

    def on_open(self, s, x):
        self.offered = self.tlsf if s.links[x["fd"]].sec and self.tlsf is not None else self.pre
        if self.ns == NS["compn"]:
            sid = self.rec["sid"] = self.rec["sids"].pop(0)
            s.send(x["fd"], sim.hdr("comp.example.org", "\0", self.ns).replace("\0", esc(sid)), k="open")
            return
        super().on_open(s, x)

    def on_handshake(self, s, x):
        self.rec["cases"].append({"kind": "component", "id": list(self.rec["sid"]), "pw": self.rec["pw"], "data": list(x["data"].encode())})
        if self.r.random() < .7:
            s.send(x["fd"], "<handshake/>", k="handshake")
        else:
            s.eof(x["fd"])

    def on_legacy(self, s, x):
        q, lg = self.rec, x["lg"]
        el = [c for c in x["el"]][0]
        f = lambda n: [list((c.text or "").encode()) for c in el if c.tag == "{%s}%s" % (NS["auth"], n)]
        q["cases"].append({"kind": "legacy", "node": q["node"], "pw": q["pw"], "resource": q["resource"], "user": f("username"), "pass": f("password"),
                           "res": f("resource"), "others": len([c for c in el]) - 3})
        s.send(x["fd"], "<iq type='%s' id='%s'/>" % (self.r.choice(["result", "error"]), esc(x["id"].encode())), k="legres")


CH = ["a", "b", "Z", "0", ".", "-", "_", "=", ",", "~", "!", "+", "%", "*", "(", "?", "\u00e9", "\u00fc", "\u00ff", "\u00a3", "\u00bf", "\u00c0", "\u0100", "\u0159", "\u4e2d", "\U0001f600", "$", "{"]
PCH = CH + [" ", "\"", "\\", "<", "&", ">", "'", "/", "@", ":", "|", "#", "\u20ac", "\u00df"]


def text(r, al, ns):
    y = r.random()
    n = r.choice(ns)
    if y < 0.35:
        al = [c for c in al if ord(c) < 128]
    elif y < 0.5:
        al = [c for c in al if ord(c) < 256]
    elif y < 0.6:
        al = ["=", ",", "a", "\"", "\\"] if "\"" in al else ["=", ",", "a"]
    return "".join(r.choice(al) for _ in range(n)).encode()


def clientcert(r, d, addrs):
    others = [der.tlv(0xa0, der.oid("1.3.6.1.5.5.7.8.5"), der.tlv(0xa0, der.tlv(0x0c, a))) for a in addrs]
    others += [der.tlv(0x81, b"alice@example.org")] if r.random() < .3 else []
    c = der.cert([("CN", b"cli")], [("CN", b"cli")], der.key("leaf"), der.key("leaf"), r.randrange(1, 1 << 40), "200101000000Z", "491231235959Z",
                 dns=[b"alice.example.org"] if r.random() < .3 else [], others=others)
    p, k = os.path.join(d, "cli.pem"), os.path.join(d, "cli.key")
    open(p, "w").write(der.pem("CERTIFICATE", c))
    open(k, "w").write(der.key("leaf").pem())
    return p.encode(), k.encode()


def session(h, job):
    seed, known = job
    r = random.Random(seed)
    s = sim.Sim(h)
    d = os.path.join(WORK[0], "s%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    sp, sk = os.path.join(d, "srv.pem"), os.path.join(d, "srv.key")
    if not os.path.exists(sp):
        c = der.cert([("CN", b"example.org")], [("CN", b"example.org")], der.key("leaf"), der.key("leaf"), 77, "200101000000Z", "491231235959Z", dns=[b"example.org"])
        open(sp, "w").write(der.pem("CERTIFICATE", c))
        open(sk, "w").write(der.key("leaf").pem())
    dom = r.choice([b"example.org"] * 5 + [b"b\xc3\xbccher.example", b"x-1.example.org"])
    node = text(r, CH, [1, 2, 3, 5, 8, 20, 60, 200]) if r.random() < .97 else b"n" * 1023
    pw = text(r, PCH, [1, 2, 3, 8, 12, 30, 63, 64, 65, 127, 128, 129, 300])
    if known is not None:
        pw = known
    res = r.choice([b"", b"r", b"Home PC", b"\xc3\xa9/x@y", b"a&b"])
    mode = r.random()
    rec = {"node": list(node), "pw": list(pw), "domain": list(dom), "resource": list(res), "bare": list(node + b"@" + dom), "addrs": [], "cases": [], "nonces": [], "sids": []}
    s.c("k.new", 0, 0)
    if mode < 0.07 and known is None:
        # component
        s.c("k.jid", 0, b"comp.example.org")
        s.c("k.pass", 0, pw)
        n = r.choice([1, 2, 3])
        rec["sids"] = [text(r, PCH, [1, 4, 8, 40, 100, 500]) for _ in range(n)]
        for _ in range(n):
            sv = Srv(rec, r, [], ns=NS["compn"])
            if sim.dial(s, kind="component", port=5347)["rc"]:
                break
            s.settle(sv, 12)
            s.c("k.disconnect", 0)
            s.settle(sv, 6)
            s.clock(3000)
            s.settle(sv, 4)
        return {"cases": rec["cases"], "nonces": []}
    anon = r.random() < 0.06 and known is None
    jid = (b"" if anon else node + b"@") + dom + (b"/" + res if res else b"")
    setjid = True
    ext = r.random() < 0.25 and known is None
    if ext:
        me = (b"" if anon else node + b"@") + dom
        rec["bare"] = list(me)
        addrs = r.choice([[], [me], [me], [b"eve@example.org"], [me, b"eve@example.org"], [b"eve@example.org", me], [jid], [me + b"x"], [me[:-1]]])
        if any(len(a) > 200 for a in addrs):
            addrs = []
        rec["addrs"] = [list(a) for a in addrs]
        s.c("k.clientcert", 0, *clientcert(r, d, addrs))
        if addrs == [me] and r.random() < .4 and not anon:
            setjid = False      # the address in the certificate is the JID
            jid = me
    if setjid:
        s.c("k.jid", 0, jid)
    if not (anon and r.random() < .5):
        s.c("k.pass", 0, pw)
    tls = r.random() < 0.45 or ext
    fl = sim.F_TRUST if tls else sim.F_DISABLE_TLS
    legacy = r.random() < 0.1
    if legacy:
        fl |= sim.F_LEGACY_AUTH
    ssl = tls and r.random() < .15
    if ssl:
        fl |= sim.F_LEGACY_SSL
    s.c("k.flags", 0, fl | sim.F_DISABLE_SM)
    if tls:
        v = r.choice(["1.2", "1.3"])
        s.c("n.tlscfg", "ok", sp, sk, v, v, "any" if ext and False else "-", 1 if ssl else 0)
    names = ["SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512", "DIGEST-MD5", "PLAIN"]
    if tls:
        names += ["SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS"]
    if ext:
        names += ["EXTERNAL"]
    if anon:
        names = ["ANONYMOUS", "EXTERNAL", "PLAIN", "SCRAM-SHA-1"]
    # a server without randomness: what the client draws has to differ all the same
    rec["stuck"] = known is None and r.random() < .12
    if rec["stuck"] and not anon:
        names = ["DIGEST-MD5", r.choice(names)]
    for n in range(3 if rec["stuck"] else r.choice([1, 1, 2])):
        if legacy and r.random() < .6:
            mech = []
        elif r.random() < .35:
            mech = [r.choice(names)]
        else:
            mech = r.sample(names, r.randrange(1, len(names) + 1))
        if ext and "EXTERNAL" not in mech and r.random() < .7:
            mech.insert(r.randrange(len(mech) + 1), "EXTERNAL")
        fs = ["m:" + m for m in mech] + (["legacy"] if legacy else [])
        script = [r.choice(["fail", "fail", "fail", "early", "ok", "again"]) for _ in range(12)]
        if known is not None:
            fs = ["m:" + r.choice(list(ALGS))]
            script = ["ok"]
        sv = Srv(rec, r, script, pre=["starttls"] + fs if tls and not ssl else fs, tls=fs, host=dom.decode(), jid="u@example.org/r")
        if sim.dial(s)["rc"]:
            break
        s.settle(sv, 80)
        s.c("k.disconnect", 0)
        s.settle(sv, 6)
        s.clock(3000)
        s.settle(sv, 4)
    return {"cases": rec["cases"], "nonces": [list(n) for n in rec["nonces"]]}


def run(ck):
    cp = ck.javacp()
    WORK[0] = ck.work
    ck.model("ModelSasl", "INIT Init\nNEXT Next\nINVARIANT Ok\nCONSTANTS\n Deep = %s\n" % ("FALSE" if ck.quick else "TRUE"), javacp=cp)
    n = 1500 if ck.quick else 12000
    jobs = [("c07-%d-%d" % (ck.seed, i), None) for i in range(n)] + [("k%d" % i, p) for i, p in enumerate(UNPREP)]
    listed = [l.strip() for l in core.known("C07")]
    kn = [p for p in UNPREP if any(vh.hx(p) in l.split() for l in listed)]
    res = core.pmap(ck.exe, session, jobs)
    flat, where = [], []
    nonces = []
    died = 0
    for j, x in enumerate(res):
        if x[0] == "died":
            died += 1
            if died <= 3:
                ck.violation("process died: %s %s" % (x[1], str(x[2])[:300]), {"job": repr(jobs[j])})
            continue
        for c in x[1]["cases"]:
            flat.append(c)
            where.append(j)
        nonces += x[1]["nonces"]
    flat.append({"kind": "nonces", "list": nonces})
    where.append(None)
    order = list(range(len(flat)))
    ck.rng.shuffle(order)
    rej = pure.judge(ck, "CasesSasl", [flat[i] for i in order], javacp=cp)
    kinds = {}
    for c in flat:
        kinds[c["kind"]] = kinds.get(c["kind"], 0) + 1
    ck.cov.update(scenarios=len(jobs), attempts=kinds, nonces=len(nonces), answered=sum(1 for c in flat for x in c.get("xs", ()) if x["rs"]))
    ck.samples += [str(flat[i])[:300] for i in (0, 40, 80)]
    bad = sorted(order[j] for j in rej)
    why = {order[j]: w for j, w in rej.items()}
    h = None
    for i in bad:
        c, w = flat[i], why[i]
        if w == "password is not normalised" and bytes(c["pw"]) in kn:
            continue
        if len(ck.violations) >= 5:
            break
        rp = {"reason": w, "case": str(c)[:6000], "job": repr(jobs[where[i]]) if where[i] is not None else ""}
        if where[i] is not None:
            h = h or vh.VH(ck.exe)
            h.start()
            try:
                core.guard(session)(h, jobs[where[i]])
            except vh.Died:
                pass
            rp["commands"] = list(h.script)[:2000]
        ck.violation("%s: %s" % (w, str({k: (bytes(v)[:80] if isinstance(v, list) and v and isinstance(v[0], int) else v) for k, v in c.items()})[:700]), rp)
    if h:
        h.close()

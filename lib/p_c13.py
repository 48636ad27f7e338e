"""C13: connection lifecycle (spec/Life.tla)."""
import os, random
import certs, core, scen, sim, traces

CERTS = [None]
SE = ["bad-format", "bad-namespace-prefix", "conflict", "connection-timeout", "host-gone", "host-unknown", "improper-addressing",
      "internal-server-error", "invalid-from", "invalid-id", "invalid-namespace", "invalid-xml", "not-authorized", "policy-violation",
      "remote-connection-failed", "resource-constraint", "restricted-xml", "see-other-host", "system-shutdown", "undefined-condition",
      "unsupported-encoding", "unsupported-stanza-type", "unsupported-version", "xml-not-well-formed", "not-well-formed"]
EDGES = [1, 2, 10, 500, 998, 999, 1000, 1001, 1999, 2000, 2001, 2500, 4990, 5000, 5001, 9999, 14990, 14998, 14999, 15000, 15001]
NOISE = [("<message from='x@y' id='n1'><body>hi</body></message>", "stanza"), ("<presence from='x@y'/>", "stanza"),
         ("<iq type='result' id='zzz'/>", "stanza"), ("<iq type='get' id='q'><p xmlns='urn:p'/></iq>", "stanza"), (" ", "ws"), ("\n", "ws"),
         ("<iq type='result' id='_xmpp_bind2'/>", "stanza"), ("<message type='error' id='_xmpp_session1x'/>", "stanza")]
STOPS = ["connect", "header", "features1", "proceed", "tlsheader", "tlsfeatures", "auth", "header2", "features2", "compressed", "features3",
         "bind", "session", "enable", "resume", "legacy", "handshake", "up", "up", "up", "none", "none"]


class Life(scen.Session):
    def __init__(self, h, r):
        scen.Session.__init__(self, h, r, CERTS[0], kinds=("client", "client", "client", "component", "raw"))
        self.acts = 0
        self.dials = 0
        self.refs = 1
        self.done = False
        self.mode = ""
        s = self.s
        raw = s.cmd
        self.lastp = None

        def cmd(line):
            x = raw(line)
            if not self.nest and s.pred:
                s.add("pred", p=s.pred[0][1:4])
            return x
        self.nest = 0
        s.cmd = cmd
        s.ask_fn = self.asked
        s.c("k.int", 0, 1)

    # ------------------------------------------------------------ user
    def flags(self, w):
        x = self.s.c("k.flags", 0, w)
        self.s.add("flags", w=w, rc=x["rc"], got=x["flags"])

    def poke(self):
        """calls which only make sense offline, or read something back"""
        r, s = self.r, self.s
        y = r.random()
        if y < 0.35:
            self.flags(r.choice([0, 1, 2, 8, 255, r.randrange(256), r.randrange(256), 256, 1 << 20]))
            self.flags(self.flagword())
        elif y < 0.5:
            s.add("getf", got=s.c("k.getflags", 0)["flags"])
        elif y < 0.7:
            if s.c("k.getsm", 0, 0)["ok"]:
                if r.random() < 0.7:
                    s.add("setsm", rc=s.c("k.setsm", 0, 0)["rc"], free=1)
                else:
                    s.c("k.freesm", 0)
        elif y < 0.85:
            x = s.c("k.restore", 0, r.choice([b"\x1a\0\0\0\0\x1a\0\0\0\1\x1a\0\0\0\1\x8f\0\0\0\1x\xbf\0\0\0\0\xcf\0\0\0\0", b"", b"\x00" * 40]))
            s.add("setsm", rc=x["rc"], free=0)
        else:
            self.redial()

    def asked(self, ev):
        r, s = self.r, self.s
        if self.mode == "quiet" or ev.get("ev") != "cb":
            return 1
        self.nest += 1
        if r.random() < 0.25:
            self.poke()
        y = r.random()
        if ev["e"] == "disconnect":
            if y < 0.15 and self.dials < 4:
                self.redial()
        elif y < 0.07:
            s.add("udisc")
            s.c("k.disconnect", 0)
        elif y < 0.2:
            s.c("k.sendraw", 0, b"<presence/>")
        self.nest -= 1
        return 1

    def redial(self):
        s = self.s
        self.dials += 1
        d = s.add("dial0", rc=0)
        port = 0 if self.r.random() < 0.2 else {"client": 5222, "component": 5347, "raw": 5222}[self.cfg["kind"]]
        tls = self.cfg["lssl"] and self.cfg["kind"] == "client"
        x = s.c("k." + self.cfg["kind"], 0, self.host, port or 5222, 0)
        d["rc"] = x["rc"]
        if x["rc"] == 0:
            s.cur[0] = x["fd"]
        return x["rc"] == 0

    def setup(self, stop=None):
        r, s = self.r, self.s
        stop = self.stop = stop or r.choice(STOPS)
        self.draw(dom="example.org", node="alice", res="home", hasres=1, tls=None if stop[:3] in ("tls", "pro") else (False if r.random() < 0.75 else None))
        c = self.cfg
        c.update({"pass": 1, "lssl": 0, "cert": 0})
        if stop == "legacy":
            c.update(kind="client", legacy=1)
        if stop == "handshake":
            c["kind"] = "component"
        if stop == "compressed":
            c["comp"] = 1
        if stop in ("enable", "resume"):
            c["nosm"] = 0
        s.add("cfg", **c)
        self.apply0()
        n = r.choice([1, 1, 1, 2, 3])
        ips = ["10.0.0.%d" % (i + 1) for i in range(n)]
        for i, ip in enumerate(ips):
            f = r.choice(["accept", "accept", "now"] if i == n - 1 else ["hang", "late", "refuse", "unreach", "latereset", "accept"])
            if stop == "connect":
                f = r.choice(["hang", "hang", "hang", "late", "refuse"])
            s.c("n.fate", ip + "/5222", f)
            s.c("n.fate", ip + "/5347", f)
        self.host = b"srv.example.org"
        s.c("n.host", "srv.example.org", ",".join(ips))
        if c["dis"] == 0:
            s.c("n.tlscfg", c.get("tlsmode", "ok"), self.certs + "/good.pem", self.certs + "/good.key", "1.2", "1.3", "-", 0)
        pre = r.choice([["m:PLAIN"], ["m:SCRAM-SHA-1"], ["m:DIGEST-MD5", "m:PLAIN"]])
        self.sv = scen.XServer(pre=pre + (["starttls"] if not c["dis"] else []) if stop != "legacy" else [], tls=pre, password=scen.PW, jid="alice@example.org/b",
                               post=["bind"] + (["session"] if stop == "session" or r.random() < .3 else []) + ["sm"] + (["zlib"] if c["comp"] else []),
                               ns=sim.NS["compn"] if c["kind"] == "component" else "jabber:client")
        self.sv.resume_ok = r.random() < 0.7

    def apply0(self):
        s, c = self.s, self.cfg
        s.c("k.jid", 0, self.jid().encode())
        s.c("k.pass", 0, scen.PW)
        for _ in range(self.r.choice([0, 0, 2])):
            self.flags(self.r.randrange(256))
        self.flags(self.flagword())

    # ------------------------------------------------------------ server
    def answer(self, s, x):
        k, fd, sv = x["k"], x["fd"], self.sv
        l = s.links[fd]
        st = self.stop
        self.opens = getattr(self, "opens", {})
        if k == "open":
            n = self.opens[fd] = self.opens.get(fd, 0) + 1
            stage = "" if sv.authed and not sv.compressed else ""
            nm = ("header", "features1") if n == 1 else ("tlsheader", "tlsfeatures") if l.sec and not sv.authed else \
                ("header3", "features3") if sv.compressed else ("header2", "features2")
            if n == 1 and sv.authed:
                sv.new_connection()
            if st == nm[0]:
                return
            if st == nm[1]:
                s.send(fd, sim.hdr(ns=sv.ns), k="open")
                return
            if n == 1 and sv.ns != sim.NS["compn"] and self.cfg["kind"] == "raw":
                s.send(fd, sim.hdr(ns=sv.ns), k="open")
                return
        if (k, st) in (("starttls", "proceed"), ("auth", "auth"), ("response", "auth"), ("compress", "compressed"), ("bind", "bind"), ("session", "session"),
                       ("enable", "enable"), ("resume", "resume"), ("legacy", "legacy"), ("handshake", "handshake")):
            return
        if k == "close" and self.r.random() < 0.5:
            return
        sv(s, x)

    def babble(self):
        r, s = self.r, self.s
        fd = s.cur.get(0)
        if fd is None or not s.live(fd) or (s.links[fd].tls and not s.links[fd].sec):
            return
        if not self.opened(fd):
            return
        d, k = r.choice(NOISE)
        s.send(fd, d, k=k)

    def opened(self, fd):
        """the current stream has been opened by the server"""
        last = None
        for e in reversed(self.s.tr):
            if e["e"] == "tls":
                return False
            if e["e"] == "rx" and e["fd"] == fd and e.get("k") == "open":
                return True
            if e["e"] == "tx" and e["k"] == "open":
                return False
        return False

    def fault(self):
        """the server ends the connection"""
        r, s = self.r, self.s
        fd = s.cur.get(0)
        if fd is None or not s.live(fd) or (s.links[fd].tls and not s.links[fd].sec):
            return
        y = r.random()
        if y < 0.3:
            s.ends(fd, r)
        elif y < 0.4:
            s.c("n.wplan", fd, "-3,-3,-3,-3")
            s.c("k.sendraw", 0, b"<presence/>")
        elif self.opened(fd):
            if y < 0.8:
                for _ in range(r.choice([1, 1, 1, 2])):
                    cond = r.choice(SE)
                    txt = r.choice([None, "", "bye", "zu sp\u00e4t", "a &amp; b"])
                    parts = ["<%s xmlns='%s'/>" % (cond, sim.NS["serr"])]
                    if txt is not None:
                        parts.append("<text xmlns='%s' xml:lang='en'>%s</text>" % (sim.NS["serr"], txt))
                    if r.random() < 0.3:
                        parts.append("<%s xmlns='urn:app'/>" % r.choice(["conflict", "text", "host-gone", "app"]))
                    if r.random() < 0.15:
                        parts += parts
                    if r.random() < 0.3:
                        parts.reverse()
                    s.send(fd, "<stream:error>%s</stream:error>" % "".join(parts), k="serror", cond=cond,
                           txt="-" if txt is None or txt == "" else txt.replace("&amp;", "&"))
                y = r.random()
                if y < 0.5:
                    s.send(fd, "</stream:stream>", k="close")
                elif y < 0.8:
                    s.ends(fd, r)
            else:
                s.send(fd, "</stream:stream>", k="close")

    def pump(self, n=40, p=0.0):
        s, idle = self.s, 0
        for _ in range(n):
            mark = len(s.tr)
            if p and self.r.random() < p:
                y = self.r.random()
                if y < 0.4:
                    self.babble()
                elif y < 0.8:
                    self.poke()
                elif y < 0.9:
                    self.fault()
                else:
                    s.add("udisc")
                    s.c("k.disconnect", 0)
            if self.r.random() < 0.2:
                s.clock(self.r.choice([1, 100, 900]))
            s.run(self.r.choice([0, 1, 1, 10]))
            while s.inbox:
                x = s.inbox.pop(0)
                if s.live(x["fd"]):
                    self.answer(s, x)
            if self.cfg["kind"] == "raw" and s.pred[0][2] and self.r.random() < 0.5 and not self.rawopen:
                self.rawopen = True
                s.add("uopen")
                s.c("k.open", 0)
            if all(e["e"] in ("loop", "pred") for e in s.tr[mark:]):
                idle += 1
                if idle >= 3:
                    break
            else:
                idle = 0

    rawopen = False

    def walk(self):
        """lets time pass while the server is silent"""
        r, s = self.r, self.s
        style = r.choice("ABCC")
        pn = r.choice([0, 0, 0.2])
        tot = 0
        for i in range(60):
            if s.pred[0][3] or tot > 70000:
                break
            if style == "A":
                d = r.choice([14990, 4995, 1995]) if i % 12 == 0 else r.choice([1, 1, 1, 2])
            elif style == "B":
                d = r.choice(EDGES)
            else:
                d = 0
            if d:
                s.clock(d)
            w = r.choice([0, 0, 1]) if style != "C" else r.choice([1, 100, 1000, 5000, 20000])
            tot += d + w
            if r.random() < pn:
                self.babble()
            if r.random() < 0.04:
                self.poke()
            if r.random() < 0.02:
                s.add("udisc")
                s.c("k.disconnect", 0)
            s.run(w)
            while s.inbox:
                x = s.inbox.pop(0)
                if s.live(x["fd"]) and x["k"] == "legacy" and self.stop != "legacy" and r.random() < .5:
                    self.answer(s, x)

    def release(self):
        s = self.s
        while self.refs > 1:
            self.refs -= 1
            s.c("k.release", 0)
        self.nest += 1
        s.add("release")
        s.c("k.release", 0)
        s.add("released")
        s.run(1)
        s.run(1)
        self.done = True


def play(h, job):
    r = random.Random("life-%s" % (job,))
    n = Life(h, r)
    s = n.s
    if r.random() < 0.6:
        n.mode = "quiet"
    for _ in range(r.choice([1, 1, 2, 3])):
        n.setup()
        if r.random() < 0.15:
            s.c("k.clone", 0)
            n.refs += 1
        n.rawopen = False
        if r.random() < 0.3:
            n.poke()
        n.redial()
        p = r.choice([0, 0, 0, 0.1, 0.3])
        n.pump(p=p)
        y = r.random()
        if n.stop == "none":
            if y < 0.5:
                n.fault()
            elif y < 0.9:
                s.add("udisc")
                s.c("k.disconnect", 0)
                if r.random() < 0.3:
                    s.add("udisc")
                    s.c("k.disconnect", 0)
            n.pump(6)
            n.walk()
        elif y < 0.85:
            n.walk()
            if r.random() < 0.3 and n.dials < 4:
                n.fault()
        if not s.pred[0][3]:
            y = r.random()
            if y < 0.3:
                break
            if y < 0.6:
                n.fault()
            s.add("udisc")
            s.c("k.disconnect", 0)
            n.pump(3)
            s.clock(2001)
            s.run(0)
        n.mode = "quiet"
        for _ in range(2):
            if s.pred[0][3]:
                break
            s.add("udisc")
            s.c("k.disconnect", 0)
            s.clock(2001)
            s.run(0)
            s.clock(2001)
            s.run(0)
        s.inbox.clear()
        n.mode = "quiet" if r.random() < 0.6 else ""
        if not s.pred[0][3]:
            break
    n.mode = "quiet"
    n.release()
    return {"tr": compact(s.tr), "stop": n.stop}


FATE = {"accept": "ok", "now": "ok", "hang": "wait", "late": "bad", "latereset": "bad", "refuse": "bad", "unreach": "bad"}


def compact(tr):
    out = []
    cool = 1
    lastp = None
    for e in sim.consumed(tr):
        x, t = e["e"], e["t"]
        d = None
        if x == "cfg":
            d = dict(e="cfg", kind=e["kind"])
        elif x == "dial0":
            d = dict(e="dial", rc=0 if e["rc"] == 0 else 1)
        elif x == "connect":
            d = dict(e="conn", fd=e["fd"], st=FATE[e["fate"]])
        elif x == "close":
            d = dict(e="close", fd=e["fd"])
        elif x == "loop":
            d = dict(e="loop")
        elif x == "tx":
            d = dict(e="tx", k=e["k"])
        elif x == "rx":
            d = dict(e="rx", k=e.get("k", "other"))
            if d["k"] == "serror":
                d.update(cond=e["cond"], txt=e["txt"])
        elif x in ("rxeof", "werr"):
            d = dict(e="eof")
        elif x in ("tlsfail", "clear", "badz"):
            d = dict(e="bad")
        elif x == "cb":
            d = dict(e="cb", ce=e["ce"], p=[int(v) for v in e["p"][0][1:4]], se=e["se"], txt=bytes.fromhex(e.get("setext") or "").decode("utf8") or "-")
        elif x in ("udisc", "uopen", "release", "released"):
            d = dict(e=x)
        elif x == "flags":
            d = dict(e=x, w=e["w"], rc=0 if e["rc"] == 0 else 1, got=e["got"])
        elif x == "getf":
            d = dict(e=x, got=e["got"])
        elif x == "setsm":
            d = dict(e=x, rc=0 if e["rc"] == 0 else 1, free=e["free"])
        elif x == "pred":
            d = dict(e=x, p=[int(v) for v in e["p"]])
            if out and out[-1]["e"] == "pred" and out[-1]["p"] == d["p"]:
                continue
        if d:
            d["t"] = t
            out.append(d)
    return out


MOVE = {"success": "<success xmlns='%s'/>" % sim.NS["sasl"], "stanza": "<message from='x@y'><body>hi</body></message>", "close": "</stream:stream>", "ws": " ",
        "serror": "<stream:error><conflict xmlns='%s'/><text xmlns='%s'>x</text></stream:error>" % (sim.NS["serr"], sim.NS["serr"]),
        "sessres": "<iq type='result' id='_xmpp_session1'/>", "open": None, "features": None,
        "bindres": "<iq type='result' id='_xmpp_bind1'><bind xmlns='%s'><jid>alice@example.org/b</jid></bind></iq>" % sim.NS["bind"]}
MFATE = {"ok": ["accept", "now"], "wait": ["hang"], "bad": ["late", "refuse", "unreach", "latereset"]}


def replay(h, job):
    """the moves of a behaviour of ModelLife.tla, on the real client"""
    hist = job[1]
    r = random.Random(repr(job))
    n = Life(h, r)
    n.mode = "quiet"
    s = n.s
    n.draw(dom="example.org", node="alice", tls=False)
    n.cfg.update({"kind": "client", "pass": 1, "lssl": 0, "cert": 0, "dis": 1, "mand": 0, "trust": 0, "nosm": 1, "comp": 0})
    s.add("cfg", **n.cfg)
    n.apply0()
    n.host = b"srv.example.org"
    jit = r.choice([0, 0, 1, -1])
    for m in hist:
        k = m[0]
        if k == "dial":
            ips = ["10.0.%d.%d" % (r.randrange(250), i + 1) for i in range(len(m[1]))]
            for ip, f in zip(ips, m[1]):
                s.c("n.fate", ip + "/5222", r.choice(MFATE[f]))
            s.c("n.host", "srv.example.org", ",".join(ips))
            n.redial()
            auth = False
        elif k == "redial":
            n.redial()
        elif k == "tick":
            s.clock(m[1] * 1000 + jit)
            s.run(0)
            for _ in range(r.choice([0, 1, 3])):
                s.run(0)
        elif k == "udisc":
            s.add("udisc")
            s.c("k.disconnect", 0)
        elif k == "flags":
            n.flags(m[1] * 1)
        else:
            s.run(0)
            fd = s.cur.get(0)
            if fd is None or not s.live(fd):
                continue
            if k == "eof":
                s.eof(fd)
            else:
                auth = auth or k == "success"
                d = sim.hdr() if k == "open" else sim.features("bind", "session") if k == "features" and auth else \
                    sim.features("m:PLAIN") if k == "features" else MOVE[k]
                s.send(fd, d, **(dict(k=k, cond="conflict", txt="x") if k == "serror" else dict(k=k)))
            s.run(0)
    s.inbox.clear()
    n.release()
    return {"tr": compact(s.tr)}


def run(ck):
    CERTS[0] = certs.basic(os.path.join(ck.work, "certs"))
    ck.model("ModelLife", "INIT Init\nNEXT Next\nINVARIANTS Sound Told UpOk Bounded\nVIEW View\n"
             "CONSTANTS U=1 MaxMoves=%d MaxT=100 Exp=FALSE\n" % (6 if ck.quick else 8))
    depth = 24
    pr = traces.programs(ck, "ModelLife", "INIT Init\nNEXT Next\nINVARIANT Export\nCONSTANTS U=1 MaxMoves=%d MaxT=400 Exp=TRUE\n" % depth,
                         800 if ck.quick else 20000, depth + 1)
    traces.run(ck, "CasesLife", [("prog", p) for p in pr], replay, name="LifeProgs", consts="CONSTANT U = 1000\n")
    n = 2500 if ck.quick else 60000
    cs = traces.run(ck, "CasesLife", [("C13-%d-%d" % (ck.seed, i)) for i in range(n)], play, consts="CONSTANT U = 1000\n")
    ok = [c for c in cs if c]
    ev = [e for c in ok for e in c["tr"]]
    ck.cov["attempts"] = sum(1 for e in ev if e["e"] == "dial" and e["rc"] == 0)
    for k in ("connect", "disconnect", "raw"):
        ck.cov[k] = sum(1 for e in ev if e["e"] == "cb" and e["ce"] == k)
    ck.cov["stream_errors"] = sum(1 for e in ev if e["e"] == "cb" and e["se"] != -1)
    ck.samples += [c["tr"][:40] for c in ok[:1]]

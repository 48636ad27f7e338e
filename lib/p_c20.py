"""C20: stream compression (spec/Zip.tla)."""
import hashlib, os, random, zlib
import certs, core, p_c06, scen, sim, tlc, traces

CERTS = [None]
CONSTS = "CONSTANT R <- RStr\n"
R1 = b"<r xmlns='urn:xmpp:sm:3'/>"


def tag(d):
    return d.decode("latin1") if len(d) < 60 else "%d:%s" % (len(d), hashlib.sha1(d).hexdigest())


class Zip:
    """one connection object; what the client reads is what was pushed, byte by byte"""

    def __init__(self, h, r, z=True, **kw):
        self.r = r
        self.s = s = sim.Sim(h)
        self.k = dict(allowed=r.random() < 0.96, offer=r.random() < 0.96, nor=r.random() < 0.4, tls=r.random() < 0.3, sm=r.random() < 0.15,
                      session=r.random() < 0.3, quiet=r.random() < 0.4, answer="ok" if r.random() < 0.92 else r.choice(["failure", "unsolicited", "late", "silent"]),
                      level=r.choice([0, 1, 6, 6, 9]), strategy=r.choice([0, 0, 0, 1, 2, 3, 4]), frag=r.choice([None, None, None, 1, 2, 5, 40, 1000, 4096]),
                      others=r.random() < 0.2, hands=r.random() < 0.8)
        self.k.update(kw)
        k = self.k
        fl = (0 if k["tls"] else 1) | (8 if k["tls"] else 0) | (0 if k["sm"] else 32) | (64 if k["allowed"] else 0) | (128 if k["nor"] else 0)
        sim.client(s, flags=fl, connect=False, interactive=1)
        if k["tls"]:
            s.c("n.tlscfg", "ok", CERTS[0] + "/good.pem", CERTS[0] + "/good.key", "1.2", r.choice(["1.2", "1.3"]), "-", 0)
        s.ask_fn = self.asked
        s.on_rd = self.read
        s.send = self.send
        self.fd = None
        self.n = 0
        self.inh = 0

    # ------------------------------------------------------------ transport of the server
    def send(self, fd, data, **m):
        """everything the server says: m['k'] in the trace when it can be read"""
        s = self.s
        if isinstance(data, str):
            data = data.encode()
        if self.over:
            return 0
        self.said(data, m)
        if self.dfl:
            out = self.dfl.compress(data)
            mode = m.pop("mode", None)
            if mode is None:
                mode = self.r.choice([zlib.Z_SYNC_FLUSH] * 4 + [zlib.Z_FULL_FLUSH, zlib.Z_PARTIAL_FLUSH])
            if mode != zlib.Z_NO_FLUSH:
                out += self.dfl.flush(mode)
        else:
            out = data
        self.push(out)
        return 1

    def said(self, data, m):
        self.plain += len(data)
        self.marks.append((self.plain, self.layer, m))

    def push(self, out):
        s, fd, p = self.s, self.fd, 0
        f = self.k["frag"]
        while p < len(out):
            n = f or len(out)
            if f and self.r.random() < 0.5:
                n = self.r.randint(1, 2 * f)
            if len(out) - p > 400 * n:
                n = len(out) // 400 + 1
            if s.c("n.rx", fd, out[p:p + n])["ok"] == 1:
                self.sent += len(out[p:p + n])
            self.chunks += 1
            p += n

    def read(self, fd, d):
        """the client has read d: what can it know now?"""
        if fd != self.fd:
            return
        self.ate += len(d)
        i = 0
        while i < len(d) and not self.cinf:    # plain
            self.seen += 1
            i += 1
            self.ready()
        rest = d[i:]
        if self.cend or not rest:
            return
        for j in (0, 1):
            try:
                if j == 0:
                    x = self.cinf.copy()
                    self.seen += len(x.decompress(rest))
                    self.cinf = x
                else:
                    for c in rest:
                        self.seen += len(self.cinf.decompress(bytes([c])))
                break
            except zlib.error:
                if j == 1:
                    self.cend = True
                    self.s.add("corrupt")
        if self.cinf.eof:
            self.cend = True
        self.ready()

    def ready(self):
        s = self.s
        while self.marks and self.marks[0][0] <= self.seen:
            n, layer, m = self.marks.pop(0)
            s.add("got", **m)
            if m.get("k") == "compressed" and self.asks:
                s.links[self.fd].inf = zlib.decompressobj()
                self.cinf = zlib.decompressobj()

    # ------------------------------------------------------------ session
    def connect(self):
        s, k = self.s, self.k
        sv = self.sv = sim.Server(pre=["starttls", "m:PLAIN"] if k["tls"] else ["m:PLAIN"], tls=["m:PLAIN"],
                                  post=["bind"] + (["sm"] if k["sm"] else []) + (["session"] if k["session"] else []) + (["zlib"] if k["offer"] else []))
        if k["others"]:
            sv.post = sv.post + ["lzw"]
        sv.hooks["compress"] = self.compress
        self.plain = self.seen = self.chunks = self.sent = self.ate = 0
        self.marks, self.layer, self.dfl, self.cinf, self.cend, self.asks = [], 0, None, None, False, False
        self.edge = False
        self.tp, self.bal = len(s.tr), 0
        self.open = True
        self.over = False
        s.inbox.clear()
        if k["answer"] == "unsolicited":
            def auth(s, x):
                sv.mech = "PLAIN"
                self.send(x["fd"], "<compressed xmlns='%s'/>" % sim.NS["comp"], k="compressed")
                return True
            sv.hooks["auth"] = auth
        d = sim.dial(s, 0)
        s.tr[-1]["z"] = 1 if k["allowed"] else 0
        if d["rc"]:
            return False
        self.fd = d["fd"]
        self.up = False
        for _ in range(80):
            self.run()
            self.serve()
            if s.pred[0][2] or s.pred[0][3]:
                break
        return bool(s.pred[0][2])

    def serve(self):
        s = self.s
        while s.inbox:
            x = s.inbox.pop(0)
            if s.live(x["fd"]) and x["fd"] == self.fd:
                self.sv(s, x)

    def compress(self, s, x):
        self.asks = True
        a = self.k["answer"]
        if a == "failure":
            self.send(self.fd, "<failure xmlns='%s'><setup-failed/></failure>" % sim.NS["comp"], k="cfail")
        elif a == "silent":
            pass
        else:
            if a == "late":
                for _ in range(3):
                    self.run()
                self.send(self.fd, "<message from='x@y'><body>w</body></message>", k="other")
                self.run()
            self.send(self.fd, "<compressed xmlns='%s'/>" % sim.NS["comp"], k="compressed")
            self.dfl = zlib.compressobj(self.k["level"], zlib.DEFLATED, 15, self.r.choice([1, 8, 9]), self.k["strategy"])
            self.sv.compressed = True

    def run(self, ms=None):
        s = self.s
        s.run(self.r.choice([0, 1, 5]) if ms is None else ms)
        if self.open:
            s.add("lend")

    def asked(self, ev):
        if ev.get("ev") == "cb" and ev.get("e") == "connect":
            self.up = True
            self.s.links[self.fd].sp = p_c06.RSplit()
            if not self.k["quiet"]:
                for _ in range(self.r.choice([0, 1, 3])):
                    self.put()
        elif ev.get("ev") == "h" and not self.k["quiet"] and self.r.random() < 0.4:
            self.put(self.r.choice([0, 10, 5000]))
        return 1

    # ------------------------------------------------------------ user
    def body(self, size):
        r = self.r
        y = r.random()
        if y < 0.35:                            # compresses well
            return bytes(97 + (self.n + i // 50) % 26 for i in range(size))
        if y < 0.5:
            return b"a" * size
        a = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/"
        return bytes(a[b & 63] for b in r.randbytes(size))

    def put(self, size=None):
        r, s = self.r, self.s
        self.n += 1
        if size is None:
            size = r.choice([0, 1, 20, 100, 100, 1000, 3000, r.randint(4000, 4120), 4096, 5000]) if r.random() < 0.9 else r.choice([8192, 12000, 20000, 50000])
        b = self.body(size)
        y = r.random()
        if y < 0.5:
            d = b'<message id="u%d"><body>%s</body></message>' % (self.n, b) if b else b'<message id="u%d"/>' % self.n
            self.q(d)
            s.c("k.sendxml", 0, d)
        elif y < 0.75 or self.k["sm"]:
            d = b"<p n='%d'>%s</p>" % (self.n, b)
            self.q(d)
            s.c("k.sendstr", 0, d)
        else:
            d = bytes(r.randrange(256) for _ in range(size + 1)) if size < 300 else r.randbytes(size)
            if d[:1] == b"<":
                d = b"!" + d[1:]
            self.q(d)
            s.c("k.sendraw", 0, d)

    def q(self, d):
        self.s.add("q", d=d)

    # ------------------------------------------------------------ server
    def say(self, size=None, mode=None):
        r = self.r
        self.inh += 1
        if size is None:
            size = r.choice([0, 1, 20, 100, 1000, 3000, 5000, 8000, 15000]) if r.random() < 0.93 else r.choice([10000, 40000, 200000])
        self.n += 1
        if size is None and r.random() < 0.25:      # at the edges of the buffer it is inflated into
            size = 4096 * r.choice([1, 1, 2, 3, 8]) + r.randint(-6, 14) - len('<message id="i%d"><body></body></message>' % self.inh)
            self.edge = True
        b = self.body(size)
        x = b'<message id="i%d"><body>%s</body></message>' % (self.inh, b) if size else b'<message id="i%d"/>' % self.inh
        if r.random() < 0.1:
            x = b" " + x
        self.send(self.fd, x, k="in", d=tag(x.strip()), **({"mode": mode} if mode is not None else {}))

    def plan(self):
        r = self.r
        y = r.random()
        if y < 0.35:
            p = []
        elif y < 0.5:
            p = [-1] * r.randrange(1, 8)
        else:
            p = [r.choice([0, -1, -4, 1, 2, 5, 10, 50, 100, 1000, 4096]) for _ in range(r.randrange(1, 14))]
        self.setplan(p)

    def setplan(self, p):
        self.open = not p
        self.s.c("n.wplan", self.fd, ",".join(map(str, p + [-1] * 60)) if p else "-")

    def quiet(self, end=True):
        s = self.s
        idle = stuck = 0
        while stuck < 4 + self.plain // 500:       # an iteration inflates at most 4096 bytes
            m, was = len(s.tr), (self.ate, self.sent, self.bal)
            self.run(1)
            self.serve()
            while self.tp < len(s.tr):
                e = s.tr[self.tp]
                self.bal += 1 if e["e"] == "got" and e.get("k") == "in" else -1 if e["e"] == "h" and e.get("f") == 0 else 0
                self.tp += 1
            idle = idle + 1 if self.bal <= 0 and all(e["e"] in ("loop", "lend") for e in s.tr[m:]) else 0
            stuck = 0 if (self.ate, self.sent, self.bal) != was else stuck + 1
            if s.pred[0][3] or (idle > 1 and (not end or self.ate >= self.sent or self.over)):
                break
        if not s.pred[0][3] and end:
            if self.ate < self.sent and not self.over:
                s.add("unread")
            s.add("quiet")

    def live(self):
        return not self.s.pred[0][3] and self.s.live(self.fd)

    def answer(self):
        """the library has to answer: at a time when it has nothing else to do"""
        s = self.s
        self.quiet()
        if self.live() and self.k["sm"]:
            self.send(self.fd, R1, k="r")
            q, self.k["quiet"] = self.k["quiet"], True
            self.quiet()
            self.k["quiet"] = q

    def walk(self, n):
        r = self.r
        for _ in range(n):
            y = r.random()
            if y < 0.35:
                for _ in range(r.choice([1, 1, 2, 4])):
                    self.put()
            elif y < 0.6:
                for _ in range(r.choice([1, 1, 2, 5])):
                    self.say(mode=r.choice([None, None, zlib.Z_NO_FLUSH]))
                if self.edge and r.random() < 0.8:
                    self.edge = False
                    self.quiet()
                    self.say(mode=r.choice([None, zlib.Z_NO_FLUSH]))
                    self.push(self.dfl.flush(zlib.Z_SYNC_FLUSH)) if self.dfl else 0
                    self.quiet()
                elif r.random() < 0.8:
                    self.say(0)
            elif y < 0.75:
                self.plan()
            elif y < 0.8:
                self.answer()
            elif y < 0.85:
                self.quiet()
            if r.random() < 0.7:
                self.run()
                self.serve()
            if not self.live():
                break

    def drain(self):
        if self.live():
            self.setplan([])
            for _ in range(2):
                self.run(1)

    def end(self):
        r, s = self.r, self.s
        y = r.random()
        if not self.live():
            return
        if y < 0.3:
            self.drain()
            self.quiet()
        elif y < 0.5:
            self.setplan([])
            s.add("udisc")
            s.c("k.disconnect", 0)
            if r.random() < 0.5:
                self.put()
            for _ in range(3):
                self.run()
            if self.live():
                self.send(self.fd, "</stream:stream>", k="fin")
            self.quiet()
        elif y < 0.75:
            self.quiet()
            for _ in range(r.choice([1, 3])):
                self.say(r.choice([10, 5000, 100000]), mode=r.choice([None, zlib.Z_NO_FLUSH]))
            if self.dfl and r.random() < 0.7:
                self.over = r.random() < 0.5
                self.push(self.dfl.flush(zlib.Z_FINISH if self.over else zlib.Z_SYNC_FLUSH))
            s.add("srveof")
            s.c("n.eof", self.fd, -1)
            for _ in range(20 + self.chunks + self.plain // 500):
                self.run()
                if s.pred[0][3]:
                    break
        elif self.dfl:
            self.quiet()
            self.say(300)
            s.add("inject")
            self.corrupt()
            self.say(10)
            self.setplan([])
            self.quiet(end=False)
            for _ in range(2):
                s.clock(3000)
                self.run(0)
            if self.live():
                s.add("quiet")

    def corrupt(self):
        r = self.r
        y = r.random()
        if y < 0.5:
            self.push(b"<message><body>in the clear</body></message>")
        elif y < 0.8:
            self.push(bytes(r.randrange(256) for _ in range(r.choice([1, 5, 50, 500]))))
        else:
            self.over = True
            self.push(self.dfl.flush(zlib.Z_FINISH))
            self.push(b"x" * r.choice([0, 1, 100]))


ALIB = ["bind", "session", "enable"]


def twin(h, k):
    """the bytes of the library's own elements in the same session without compression"""
    r = random.Random("twin")
    z = Zip(h, r, **dict(k, offer=False, answer="ok", frag=None, quiet=True))
    z.connect()
    for _ in range(3):
        z.run(1)
        z.serve()
    out = {}
    for e in z.s.tr:
        if e["e"] == "tx" and e["k"] in ALIB + ["open"]:
            out[e["k"]] = e["raw"]
        elif e["e"] == "decl":
            out["decl"] = e["raw"]
    return out


_T = {}


def lib(h, k):
    i = (k["tls"], k["sm"], k["session"], k["allowed"], k["nor"])
    if i not in _T:
        _T[i] = twin(h, k)
    return _T[i]


S8 = lambda d: d.decode("latin1")


def compact(tr, tw, k):
    out, h, sm = [], 0, False
    post, up, conf = False, False, False
    asked = False
    eof = False
    hdr = tw.get("decl", b"") + tw.get("open", b"")
    for e in tr:
        x = e["e"]
        d = None
        if x == "dial":
            post = up = conf = asked = sm = eof = False
            h = 0
            if e["rc"] == 0:
                d = dict(e="dial", z=e["z"])
        elif x == "got":
            y = e.get("k")
            if y == "success":
                post = True
                d = dict(e="auth")
            elif y == "features" and post:
                out.append(dict(e="feat", z=1 if "zlib" in e["f"] else 0))
                if conf and "bind" in tw:
                    d = dict(e="lib", v=[S8(tw["bind"])])
            elif y == "compressed":
                d = dict(e="conf", v=[S8(hdr)])
                conf = conf or asked
            elif y == "bindres" and conf:
                v = tw.get("session") or tw.get("enable")
                if v:
                    d = dict(e="lib", v=[S8(v)])
            elif y == "sessres" and conf and "enable" in tw:
                d = dict(e="lib", v=[S8(tw["enable"])])
            elif y == "enabled":
                sm = True
                d = dict(e="smon")
            elif y == "in":
                h += 1
                d = dict(e="avail", d=e["d"], t=e["t"])
            elif y == "other" and up:
                h += 1
            elif y == "r":
                d = dict(e="lib", v=[S8(p_c06.A1 % h), S8(p_c06.A2 % h)])
        elif x == "tx":
            if e["k"] == "compress":
                asked = True
                d = dict(e="ask", m=e["method"])
            elif e["k"] == "junk" and not conf:
                d = dict(e="junk")
        elif x == "badz":
            d = dict(e="badz")
        elif x == "cb":
            if e["ce"] == "connect":
                up = True
            elif e["ce"] == "disconnect":
                d = dict(e="down", eof=1 if eof else 0)
        elif x == "rxeof":
            eof = True
        elif x == "q":
            d = dict(e="q", d=S8(e["d"]))
        elif x == "wire":
            if conf and e.get("d"):
                d = dict(e="wire", d=S8(e["d"]))
        elif x == "h" and e.get("f") == 0:
            d = dict(e="in", d=tag(bytes.fromhex(e["xml"])), t=e["t"])
        elif x == "udisc":
            d = dict(e="close", v=["</stream:stream>"])
        elif x in ("loop", "lend", "drained", "corrupt", "inject", "quiet", "unread"):
            d = dict(e=x)
        if d:
            if d["e"] in ("loop", "lend") and len(out) > 1 and out[-1]["e"] in ("loop", "lend") and out[-2]["e"] == d["e"]:
                continue
            out.append(d)
    return out


def finish(z):
    s = z.s
    if not s.pred[0][3]:
        if z.fd and s.live(z.fd):
            z.setplan([])
        s.add("udisc")
        s.c("k.disconnect", 0)
        s.clock(2500)
        s.run(0)
        s.clock(2500)
        s.run(0)


def play(h, job):
    r = random.Random("zip-%s" % (job,))
    z0 = Zip(h, r)
    k = z0.k
    tw = lib(h, k)
    z = Zip(h, r, **k)
    for i in range(r.choice([1, 1, 1, 2])):
        if i:
            z.k["offer"] = r.random() < 0.7
        if not z.connect():
            break
        if not hasattr(z, "hd"):
            z.hd = 1
            z.s.c("k.hadd", 0, 0, None, b"message", None, 0, -1)
        z.walk(r.choice([5, 10, 20, 30]))
        z.end()
        finish(z)
        if k["sm"]:
            break
    return {"tr": compact(z.s.tr, tw, k), "z": bool(z.cinf)}


def prog(h, moves):
    """replays a behaviour of ModelZip"""
    r = random.Random(str(moves)[:3000])
    k = dict(allowed=True, offer=True, tls=False, sm=False, session=False, quiet=True, answer="ok", level=6, strategy=0, frag=None, others=False)
    nor = r.random() < 0.5
    z = Zip(h, r, nor=nor, **k)
    k = dict(z.k)
    tw = lib(h, k)
    z = Zip(h, r, **k)
    s = z.s
    if not z.connect():
        return {"tr": compact(s.tr, tw, k), "z": bool(z.cinf)}
    s.c("k.hadd", 0, 0, None, b"message", None, 0, -1)
    z.quiet()
    B = r.choice([(10, 800, 3000), (3000, 4096, 9000), (100, 5000, 30000)])
    held = []
    for i, m in enumerate(moves):
        x = m["k"]
        if x == "q":
            z.put(B[m["sz"] - 1])
        elif x == "loop":
            b = m["b"]
            z.setplan({0: [-1], 1: [r.choice([1, 7, 300])], 2: [r.choice([1, 4095, 4096]), r.choice([1, 4096])], 99: []}[b])
            z.run(0)
        elif x == "say":
            z.say((5, 3000, 9000)[m["sz"] - 1], mode=zlib.Z_SYNC_FLUSH if m["apart"] else zlib.Z_NO_FLUSH)
        elif x == "read":
            if z.dfl:
                o = z.dfl.flush(zlib.Z_SYNC_FLUSH)
                z.push(o)
            z.setplan([-1])
            z.run(0)
    z.drain()
    z.quiet()
    return {"tr": compact(s.tr, tw, k), "z": bool(z.cinf)}


MODEL = "INIT Init\nNEXT Next\nINVARIANTS Agrees Books\nVIEW View\nCONSTANTS R <- RSeq MaxMoves=%d MaxQ=%d C=2 L=2 Inf=99 Dirs <- %s Exp=0\n"
SIM = "INIT Init\nNEXT Next\nINVARIANT Export\nCONSTANTS R <- RSeq MaxMoves=%d MaxQ=6 C=2 L=2 Inf=99 Dirs <- DirsB Exp=1\n"


def run(ck):
    CERTS[0] = certs.basic(os.path.join(ck.work, "certs"))
    n = 400 if ck.quick else 20000
    ck.model("ModelZip", MODEL % (5 if ck.quick else 7, 3, "Dirs1"), name="ModelZipOut", timeout=3000)
    ck.model("ModelZip", MODEL % (9 if ck.quick else 14, 4 if ck.quick else 5, "Dirs2"), name="ModelZipIn", timeout=3000)
    cs = traces.run(ck, "CasesZip", ["C20-%d-%d" % (ck.seed, i) for i in range(n)], play, consts=CONSTS)
    d = 12 if ck.quick else 25
    pr = traces.programs(ck, "ModelZip", SIM % d, 250 if ck.quick else 4000, d + 2, timeout=600)
    cs += traces.run(ck, "CasesZip", pr, prog, name="prog", consts=CONSTS)
    ok = [c for c in cs if c]
    ev = [e for c in ok for e in c["tr"]]
    ck.cov["compressed_sessions"] = sum(1 for c in ok if c["z"])
    ck.cov["queued"] = sum(1 for e in ev if e["e"] == "q")
    ck.cov["wire_bytes"] = sum(len(e["d"]) for e in ev if e["e"] == "wire")
    ck.cov["stanzas_in"] = sum(1 for e in ev if e["e"] == "in")
    ck.cov["corrupt"] = sum(1 for e in ev if e["e"] == "corrupt")
    ck.cov["flush_checks"] = sum(1 for e in ev if e["e"] == "lend")
    ck.samples += [[dict(e, d=str(e["d"])[:60]) if "d" in e else {k: e[k] for k in e if k != "v"} for e in c["tr"][:40]] for c in (ok[0], ok[-1])]

"""C06: the send queue (spec/SendQ.tla)."""
import os, random, re
import certs, core, p_c04, scen, sim, tlc, traces

CERTS = [None]
RQ = b"<r xmlns='urn:xmpp:sm:3'/>"
CONSTS = "CONSTANT R <- RBytes\n"


class RSplit:
    """finds the requests in whatever the client sends"""

    def __init__(self):
        self.b = b""

    def feed(self, d):
        self.b += d
        f = list(re.finditer(b"<r xmlns=(['\"])urn:xmpp:sm:3\\1/>", self.b))
        n = len(f)
        if n:
            self.b = self.b[f[-1].end():]
        self.b = self.b[-100:]
        return [dict(k="r", raw=RQ) for _ in range(n)]


class Queue:
    def __init__(self, h, r, **kw):
        self.r = r
        self.s = s = sim.Sim(h)
        self.sm = kw.get("sm", r.random() < 0.4)
        self.tls = kw.get("tls", r.random() < 0.25)
        self.z = kw.get("z", r.random() < 0.2)
        self.n = 0
        self.inb = 0
        self.upped = False
        s.ask_fn = self.asked
        self.fl = (0 if self.tls else 1) | (8 if self.tls else 0) | (0 if self.sm else 32) | (64 if self.z else 0)
        sim.client(s, flags=self.fl, connect=False, interactive=1)
        if self.tls:
            s.c("n.tlscfg", "ok", CERTS[0] + "/good.pem", CERTS[0] + "/good.key", "1.2", r.choice(["1.2", "1.3"]), "-", 0)
        self.quiet = kw.get("quiet", r.random() < 0.5)

    def connect(self):
        s = self.s
        sv = self.sv = sim.Server(pre=["starttls", "m:PLAIN"] if self.tls else ["m:PLAIN"], tls=["m:PLAIN"],
                                  post=["bind"] + (["sm"] if self.sm else []) + (["zlib"] if self.z else []))
        sv.answer_r = self.r.random() < 0.5
        s.inbox.clear()
        self.upped = False
        self.inb = 0
        d = sim.dial(s, 0)
        if d["rc"]:
            return False
        self.fd = d["fd"]
        for _ in range(40):
            s.settle(sv, n=3)
            if s.pred[0][2] or s.pred[0][3]:
                break
        return bool(s.pred[0][2])

    # ------------------------------------------------------------ user
    def asked(self, ev):
        if ev.get("ev") == "cb" and ev.get("e") == "connect":
            self.upped = True
            self.s.links[self.fd].sp = RSplit()
            if not self.quiet:
                for _ in range(self.r.choice([0, 1, 3])):
                    self.put()
        elif ev.get("ev") == "cb" and ev.get("e") == "disconnect" and self.r.random() < 0.5 and not self.quiet:
            self.put()
            self.drop()
            self.qlen()
        elif ev.get("ev") == "h" and self.r.random() < 0.7:
            self.put()
        return 1

    def q(self, d):
        self.s.add("q", d=d)

    def put(self, size=None):
        r, s = self.r, self.s
        self.n += 1
        y = r.random()
        size = size if size is not None else r.choice([0, 0, 1, 5, 20, 40, 40, 100]) if r.random() < 0.985 else r.choice([4096, 16384, 20000])
        body = bytes(97 + (self.n + i) % 26 for i in range(size))
        if y < 0.4:
            d = b'<message id="u%d"><body>%s</body></message>' % (self.n, body) if body else b'<message id="u%d"/>' % self.n
            self.q(d)
            s.c("k.sendxml", 0, d)
        elif y < 0.7:
            d = b"<p n='%d'>%s</p>" % (self.n, body)
            self.q(d)
            s.c("k.sendstr", 0, d)
        else:
            if r.random() < 0.3 and not self.sm:
                d = bytes(r.randrange(256) for _ in range(size + 1))
                if d[:1] == b"<":
                    d = b"!" + d[1:]
            else:
                d = b"<m%d/>%s" % (self.n, body)
            self.q(d)
            s.c("k.sendraw", 0, d)

    def drop(self, w=None):
        w = w or self.r.choice(["old", "young"])
        x = self.s.c("k.drop", 0, {"old": self.OLD, "young": self.YOUNG}[w])
        v = x["v"]
        self.s.add("drop", w=w, d=None if v is None else bytes.fromhex(v))

    OLD, YOUNG = -1, -2

    def qlen(self):
        self.s.add("qlen", n=self.s.c("k.qlen", 0)["n"])

    # ------------------------------------------------------------ server
    def say(self, d, k):
        s = self.s
        if s.live(self.fd):
            s.send(self.fd, d, k=k)

    def plan(self, p=None):
        r = self.r
        if p is None:
            y = r.random()
            if y < 0.25:
                p = []
            elif y < 0.3:
                p = [r.choice([0, -1, -4, 1, 2, 3, 5, 30]) for _ in range(r.randrange(1, 8))] + [r.choice([-2, -3])]
            elif y < 0.5:
                p = [-1] * r.randrange(1, 8)
            else:
                p = [r.choice([0, -1, -4, 1, 1, 2, 3, 5, 7, 10, 30, 60, 100]) for _ in range(r.randrange(1, 14))]
        # a blocked socket stays so: the plan ends with EAGAIN
        self.s.c("n.wplan", self.fd, ",".join(map(str, p)) if p else "-")

    def pump(self):
        s, r = self.s, self.r
        s.run(r.choice([0, 1, 1]))
        while s.inbox:
            x = s.inbox.pop(0)
            if x["k"] == "r" and s.live(x["fd"]) and self.sv.answer_r and r.random() < 0.7:
                self.say("<a xmlns='urn:xmpp:sm:3' h='0'/>", "ack")

    def walk(self, n):
        r, s = self.r, self.s
        for _ in range(n):
            y = r.random()
            if y < 0.4:
                for _ in range(r.choice([1, 1, 2, 4])):
                    self.put()
            elif y < 0.55:
                self.drop()
            elif y < 0.67:
                self.qlen()
            elif y < 0.8:
                self.plan()
            elif y < 0.86 and self.sm:
                self.say(RQ, "r")
            elif y < 0.92:
                self.say("<message from='x@y'><body>hi</body></message>", "stanza")
            else:
                self.pump()
            if r.random() < 0.5:
                self.pump()
            if s.pred[0][3]:
                break

    def drain(self):
        s = self.s
        if s.pred[0][3] or not s.live(self.fd):
            return
        self.plan([])
        for _ in range(3):
            s.run(1)
        s.add("drained")


A1 = b'<a xmlns="urn:xmpp:sm:3" h="%d"/>'
A2 = b'<a h="%d" xmlns="urn:xmpp:sm:3"/>'


def bts(d):
    return list(d)


def compact(tr, sm, z):
    out, h, up = [], 0, False
    for e in sim.consumed(tr):
        x = e["e"]
        d = None
        if x == "dial":
            up = False
            h = 0
            if e["rc"] == 0:
                d = dict(e="dial")
        elif x == "cb":
            if e["ce"] == "connect":
                up = True
                d = dict(e="up", sm=1 if sm else 0, z=1 if z else 0)
            elif e["ce"] == "disconnect":
                d = dict(e="down")
        elif x == "q":
            d = dict(e="q", d=bts(e["d"]))
        elif x == "wire":
            if up and e.get("d"):
                d = dict(e="wire", d=bts(e["d"]))
        elif x == "rx":
            if up and e.get("k") == "stanza":
                h += 1
            elif up and e.get("k") == "r":
                d = dict(e="lib", v=[bts(A1 % h), bts(A2 % h)])
        elif x == "udisc":
            d = dict(e="close", v=[bts(b"</stream:stream>")])
        elif x == "qlen":
            d = dict(e="qlen", n=e["n"])
        elif x == "drop":
            d = dict(e="drop", w=e["w"], d=[-1] if e["d"] is None else bts(e["d"]))
        elif x in ("loop", "drained"):
            d = dict(e=x)
        if d:
            if d["e"] == "loop" and out and out[-1]["e"] == "loop":
                continue
            out.append(d)
    return out


def end(q):
    s, r = q.s, q.r
    y = r.random()
    if y < 0.35:
        q.drain()
    elif y < 0.6:
        s.add("udisc")
        s.c("k.disconnect", 0)
        if r.random() < 0.5:
            q.put()
        for _ in range(3):
            q.pump()
        if r.random() < 0.5:
            q.drain()
        if s.live(q.fd):
            q.say("</stream:stream>", "close")
    elif y < 0.8:
        if s.live(q.fd):
            s.eof(q.fd, r.choice([-1, 104]))
    for _ in range(2):
        q.pump()
    for _ in range(r.choice([0, 2, 6])):
        r.choice([q.qlen, q.drop, q.put])()


def play(h, job):
    r = random.Random("queue-%s" % (job,))
    q = Queue(h, r)
    for _ in range(1 if q.sm else r.choice([1, 1, 1, 2])):
        if not q.connect():
            break
        if r.random() < 0.3:
            q.s.c("k.hadd", 0, 0, None, b"message", None, -1, 0)
        q.walk(r.choice([5, 10, 20, 40]))
        end(q)
        s = q.s
        if not s.pred[0][3]:
            s.add("udisc")
            s.c("k.disconnect", 0)
            s.clock(2500)
            s.run(0)
            s.clock(2500)
            s.run(0)
    return {"tr": compact(q.s.tr, q.sm, q.z)}


BLOCK = ",".join(["-1"] * 60)


def prog(h, job):
    """replays a behaviour of ModelSendQ: one unit of it is 7 bytes (half an element
    for the library's own)"""
    sm, moves = job
    r = random.Random(1)
    q = Queue(h, r, sm=bool(sm), tls=False, z=False, quiet=True)
    s = q.s
    if not q.connect():
        raise RuntimeError("no session")
    fd = q.fd
    s.c("n.wplan", fd, BLOCK)
    for k, m in enumerate(moves):
        x = m["m"]
        if x == "q":
            d = (b"%d" % (k + 11) + bytes(97 + (k * 5 + i) % 26 for i in range(14)))[:7 * m["sz"]]
            q.q(d)
            s.c("k.sendraw", 0, d)
        elif x in ("lib", "ack"):
            q.say(RQ if x == "lib" else "<a xmlns='urn:xmpp:sm:3' h='0'/>", "r" if x == "lib" else "ack")
            s.c("n.wplan", fd, BLOCK)
            s.run(0)
        elif x == "loop":
            if m["all"]:
                s.c("n.wplan", fd, ",".join(["100000"] * len(m["p"])) + "," + BLOCK)
            else:
                o, c = m["p"][-1]
                c *= {"U": 7, "R": 12, "L": 10}[o]
                s.c("n.wplan", fd, ",".join(["100000"] * (len(m["p"]) - 1) + [str(c or -1)]) + "," + BLOCK)
            s.run(0)
        elif x == "drop":
            q.drop(m["w"])
        elif x == "qlen":
            q.qlen()
    for _ in range(2):
        q.qlen()
        q.drop(r.choice(["old", "young"]))
    q.drain()
    return {"tr": compact(s.tr, q.sm, q.z)}


MODEL = "INIT Init\nNEXT Next\nINVARIANTS Agrees Books\nVIEW View\nCONSTANTS R <- RSeqM MaxMoves=%d MaxQ=%d SM=%d Exp=0\n"
SIM = "INIT Init\nNEXT Next\nINVARIANT Export\nCONSTANTS R <- RSeqM MaxMoves=%d MaxQ=6 SM=%d Exp=1\n"


def run(ck):
    CERTS[0] = certs.basic(os.path.join(ck.work, "certs"))
    n = 500 if ck.quick else 60000
    cs = traces.run(ck, "CasesSendQ", ["C06-%d-%d" % (ck.seed, i) for i in range(n)], play, consts=CONSTS)
    for sm in (0, 1):
        ck.model("ModelSendQ", MODEL % (7 if ck.quick else 10, 4 if ck.quick else 5, sm), name="ModelSendQ%d" % sm, timeout=3000)
        d = 14 if ck.quick else 25
        pr = traces.programs(ck, "ModelSendQ", SIM % (d, sm), 400 if ck.quick else 6000, d + 2, timeout=600)
        cs += traces.run(ck, "CasesSendQ", [(sm, p) for p in pr], prog, name="prog%d" % sm, consts=CONSTS)
    # sessions with stream management over several connections: what is sent again is in the queue, too
    p_c04.CERTS[0] = CERTS[0]
    sm = traces.run(ck, "CasesSm", ["C06-%d-%d" % (ck.seed, i) for i in range(700 if ck.quick else 20000)], p_c04.play, name="sm",
                    consts='CONSTANT Rules = {"C06"}\n')
    ck.cov["sm_sessions"] = len([c for c in sm if c])
    ok = [c for c in cs if c]
    ev = [e for c in ok for e in c["tr"]]
    ck.cov["queued"] = sum(1 for e in ev if e["e"] == "q")
    ck.cov["wire_bytes"] = sum(len(e["d"]) for e in ev if e["e"] == "wire")
    ck.cov["dropped"] = sum(1 for e in ev if e["e"] == "drop" and e["d"] != [-1])
    ck.cov["qlen"] = sum(1 for e in ev if e["e"] == "qlen" and e["n"])
    ck.samples += [[dict(e, d=bytes(b for b in e["d"][:60] if b >= 0).decode("latin1")) if "d" in e else {k: e[k] for k in e if k != "v"}
                    for e in c["tr"][:40]] for c in (ok[0], ok[-1])]

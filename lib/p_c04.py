"""C04: stream management, outbound (spec/Sm.tla; C05 uses the same sessions)."""
import hashlib, os, random
import certs, core, scen, sim, tlc, traces

CERTS = [None]
SMNS = sim.NS["sm"]
BOGUS = ["", "abc", "1x", "-", None, "0x1"]


def lab(d):
    """a stanza is named by its text"""
    if isinstance(d, str):
        d = d.encode("latin1")
    return d.decode("latin1") if len(d) < 80 else "sha1:" + hashlib.sha1(d).hexdigest()


def blob(d):
    """what a state blob says; None: it isn't a state"""
    try:
        return blob0(d)
    except (ValueError, IndexError):
        return None


def blob0(d):
    p = [5]

    def u32(t):
        if d[p[0]] != t or len(d) < p[0] + 5:
            raise ValueError
        v = int.from_bytes(d[p[0] + 1:p[0] + 5], "big")
        p[0] += 5
        return v

    def txt():
        n = u32(0x7a)
        v = d[p[0]:p[0] + n]
        if len(v) != n:
            raise ValueError
        p[0] += n
        return v
    if d[:5] != b"\x1a\0\0\0\0":
        raise ValueError
    r = dict(cnt=u32(0x1a), hin=u32(0x1a), id=txt().decode("latin1"))
    r["q"] = [txt() for _ in range(u32(0x9a))]
    r["un"] = [(u32(0x1a), txt()) for _ in range(u32(0xba))]
    if p[0] != len(d):
        raise ValueError
    return r


class Logical:
    """the user's end and the server's end of a logical session over several connections"""

    def __init__(self, h, r, **kw):
        self.r = r
        self.s = s = sim.Sim(h)
        self.n = 0
        self.inn = 0
        self.k = 0
        self.tls = kw.get("tls", r.random() < 0.15)
        self.blobs = kw.get("blobs", r.random() < 0.6)
        self.sess = r.random() < 0.2
        self.big = r.random() < 0.1
        s.ask_fn = self.asked
        self.quiet = kw.get("quiet", r.random() < 0.5)
        self.mk(0)
        self.fd = None
        # the server's books
        self.got = []        # stanzas counted in the logical session
        self.acked = 0
        self.sid = 0
        self.cur = None      # id of the session which could be resumed
        self.active = False
        self.knob = {}
        self.block = False
        self.persist = False

    def mk(self, k, flags=None):
        s = self.s
        fl = (8 if self.tls else 1) if flags is None else flags
        sim.client(s, k, flags=fl, connect=False, interactive=1)
        if self.blobs:
            s.c("k.smcb", k, 1)
        if self.tls:
            s.c("n.tlscfg", "ok", CERTS[0] + "/good.pem", CERTS[0] + "/good.key", "1.2", "1.3", "-", 0)
        self.k = k

    # ------------------------------------------------------------ user
    def asked(self, ev):
        if ev.get("ev") == "cb" and ev.get("e") == "connect" and not self.quiet:
            for _ in range(self.r.choice([0, 0, 1, 2])):
                self.put()
        elif ev.get("ev") == "h" and self.r.random() < 0.4:
            self.put()
        elif ev.get("ev") == "cb" and ev.get("e") == "disconnect" and not self.quiet and self.r.random() < 0.3:
            self.drop()
        return 1

    def put(self):
        r, s = self.r, self.s
        self.n += 1
        b = "y" * (r.choice([0, 0, 3, 30]) if not self.big or r.random() < 0.7 else r.choice([1000, 5000]))
        k = r.randrange(4)
        d = ("<message id='u%d'><body>%s</body></message>" % (self.n, b), "<presence id='u%d'/>" % self.n,
             "<iq id='u%d' type='get'><q xmlns='a'>%s</q></iq>" % (self.n, b), "<message id='u%d'/>" % self.n)[k].encode()
        s.add("q", d=d)
        s.c(r.choice(["k.sendraw", "k.sendstr"]), self.k, d)

    def drop(self, w=None):
        w = w if w is not None else self.r.choice([-1, -2])
        tr = self.s.tr
        n = len(tr)
        v = self.s.c("k.drop", self.k, w)["v"]
        if v is not None:
            self.s.add("drop", d=bytes.fromhex(v), w=1 if w == -1 else 0)
            tr.insert(n, tr.pop())      # before the state that it reports
        else:
            self.s.add("nodrop")

    def qlen(self):
        self.s.add("qlen", n=self.s.c("k.qlen", self.k)["n"])

    def st(self):
        for p in self.s.pred:
            if p[0] == self.k:
                return p
        return [self.k, 0, 0, 1, 0, 0]

    # ------------------------------------------------------------ server
    def up(self):
        return bool(self.fd is not None and self.s.live(self.fd) and self.st()[2])

    def say(self, d, k, **kw):
        s = self.s
        if not s.live(self.fd):
            return
        if isinstance(d, str):
            d = d.encode()
        s.send(self.fd, d, k=k, **kw)

    def stanza(self):
        self.inn += 1
        r = self.r
        z = "z" * r.choice([0, 5, 200])
        d = ("<message id='i%d'><body>%s</body></message>" % (self.inn, z), "<presence id='i%d'/>" % self.inn,
             "<iq id='i%d' type='result'/>" % self.inn, "<iq id='i%d' type='get'><q xmlns='b'/></iq>" % self.inn,
             "<message id='i%d' type='%s'><body>%s</body></message>" % (self.inn, r.choice(["error", "chat", "groupchat", "headline", ""]), z),
             "<message id='u%d' type='error'><error type='cancel'><gone xmlns='%s'/></error></message>" % (r.randint(1, self.n + 1), sim.NS["stz"]),
             "<presence type='%s'/>" % r.choice(["error", "unavailable", "subscribe", "r", "a"]),
             "<iq id='u%d' type='%s'/>" % (r.randint(1, self.n + 1), r.choice(["error", "result", "set"])),
             "<message xmlns='jabber:client' from='a@b/c' id='i%d'/>" % self.inn,
             "<c:message xmlns:c='jabber:client'><c:body/></c:message>",
             "<message><r xmlns='%s'/></message>" % SMNS, "<iq type='set'><a xmlns='%s' h='1'/></iq>" % SMNS,
             "<message><forwarded xmlns='f'><message xmlns='jabber:client'/><message xmlns='jabber:client'/></forwarded></message>",
             "<message/>", "<presence/>", "<iq/>")[r.randrange(16)]
        self.say(d, "stanza")

    def ack(self, h=None, raw=None):
        if raw is not None:
            self.say("<a xmlns='%s'%s/>" % (SMNS, "" if raw[0] is None else " h='%s'" % raw[0]), "ack", h=-1)
            return
        if h is None:
            y = self.r.random()
            n = len(self.got)
            h = n if y < 0.5 else self.r.randint(min(self.acked, n), n) if y < 0.8 else self.r.randint(0, n)
        self.acked = max(h, self.acked)
        self.say("<a xmlns='%s' h='%d'/>" % (SMNS, h), "ack", h=h)

    def connect(self, **kn):
        """knobs: sm (offered), resume ok/fail/failh/nofeature/silent, h, enable ok/noresume/failed/silent"""
        s = self.s
        kn.setdefault("sm", True)
        kn.setdefault("resume", "ok")
        kn.setdefault("enable", "ok")
        self.knob = kn
        self.active = False
        self.choke = None if self.block or self.r.random() < 0.8 else [self.r.choice([-1, 1, 5, 20, 40, 60, 100]) for _ in range(self.r.randrange(1, 5))] + [-1] * self.r.choice([3, 40])
        sv = self.sv = sim.Server(pre=["starttls", "m:PLAIN"] if self.tls else ["m:PLAIN"], tls=["m:PLAIN"],
                                  post=["bind"] + (["sm"] if kn["sm"] else []) + (["session"] if self.sess else []))
        sv.hooks = dict(enable=self.on_enable, resume=self.on_resume, stanza=self.on_stanza, r=self.on_r, a=lambda *a: None,
                        close=self.on_close, bind=self.on_bind)
        s.inbox.clear()
        d = sim.dial(s, self.k)
        if d["rc"]:
            self.fd = None
            return False
        self.fd = d["fd"]
        self.chunked = not self.block and self.r.random() < 0.15
        if self.chunked:
            s.c("n.rawchunk", self.fd, self.r.choice([1, 2, 7, 50]))
        for _ in range(60):
            s.settle(sv, n=2)
            if self.st()[2] or self.st()[3]:
                break
        return bool(self.st()[2])

    def on_bind(self, s, x):
        if self.block and not self.knob["sm"]:
            s.c("n.wplan", self.fd, BLOCK)
        return True

    def on_enable(self, s, x):
        k = self.knob["enable"]
        if self.choke:
            self.plan(self.choke)
        if self.block:
            s.c("n.wplan", self.fd, BLOCK)
        if k == "silent":
            return
        if k == "failed":
            self.say("<failed xmlns='%s'><unexpected-request xmlns='%s'/></failed>" % (SMNS, sim.NS["stz"]), "failed", h=-1)
            return
        self.sid += 1
        self.got, self.acked = [], 0
        self.active = True
        res = k == "ok" and x.get("sm_resume") is not None
        self.cur = "s%d" % self.sid if res else None
        self.say("<enabled xmlns='%s'%s/>" % (SMNS, " id='%s' resume='%s'" % (self.cur, self.r.choice(["true", "1", "TRUE"])) if res else
                                             self.r.choice(["", " id='x'", " resume='false'"])), "enabled", can=1 if res else 0, sid=self.cur or "")

    def on_resume(self, s, x):
        k = self.knob["resume"]
        if k == "silent":
            return
        if self.choke and k == "ok":
            self.plan(self.choke)
        n = len(self.got)
        h = self.knob.get("h")
        if h is None:
            h = n if self.r.random() < 0.5 else self.r.randint(min(self.acked, n), n)
        if k == "ok" and x.get("sm_previd") == self.cur and self.cur:
            if self.block:
                s.c("n.wplan", self.fd, BLOCK)
            del self.got[h:]
            self.acked = h
            self.active = True
            self.say("<resumed xmlns='%s' previd='%s' h='%d'/>" % (SMNS, self.cur, h), "resumed", h=h)
        else:
            hh = "" if k != "failh" else " h='%d'" % h
            c = "feature-not-implemented" if k == "nofeature" else self.r.choice(["item-not-found"] * 3 + ["unexpected-request", ""])
            self.cur = None
            c = "<%s xmlns='%s'/>" % (c, sim.NS["stz"]) if c else self.r.choice(["", "<x xmlns='y'/>", "text"])
            self.say("<failed xmlns='%s'%s>%s</failed>" % (SMNS, hh, c), "failed", h=h if hh else -1)

    def on_stanza(self, s, x):
        if self.active:
            self.got.append(x["raw"])

    def on_r(self, s, x):
        if self.active and self.knob.get("answer", True) and self.r.random() < 0.8:
            self.ack()

    def on_close(self, s, x):
        self.say("</stream:stream>", "close")

    def pump(self, n=1):
        s = self.s
        for _ in range(n):
            s.run(self.r.choice([0, 1]))
            while s.inbox:
                x = s.inbox.pop(0)
                if s.live(x["fd"]) and x["fd"] == self.fd:
                    self.sv(s, x)

    def plan(self, p=None):
        r = self.r
        if p is None:
            y = r.random()
            if y < 0.3:
                p = []
            elif y < 0.6:
                p = [r.choice([1, 5, 20, 40, 60]), -1] + [-1] * r.randrange(0, 20)
            else:
                p = [r.choice([-1, 1, 5, 20, 40, 60, 100, 1000]) for _ in range(r.randrange(1, 14))]
        self.s.c("n.wplan", self.fd, ",".join(map(str, p)) if p else "-")

    def lose(self, how=None):
        """the connection is lost; what the client believes sent may not have arrived"""
        s, r = self.s, self.r
        how = how or r.choice(["eof", "reset", "write", "close", "user", "error", "error2"])
        fd = self.fd
        if not s.live(fd):
            return
        # what is on the way is lost or not
        if r.random() < 0.5:
            self.pump()
        if how == "eof":
            s.eof(fd, -1)
        elif how == "reset":
            s.eof(fd, 104)
        elif how == "write":
            s.c("n.wplan", fd, "-3,-3,-3,-3,-3")
            self.put()
        elif how == "close":
            self.say("</stream:stream>", "close")
        elif how == "error":
            self.say("<stream:error><reset xmlns='%s'/></stream:error></stream:stream>" % sim.NS["serr"], "serror")
        elif how == "error2":
            self.say("<stream:error><reset xmlns='%s'/></stream:error>" % sim.NS["serr"], "serror")
            self.pump(r.randrange(3))
            s.eof(fd, -1)
        elif how == "user":
            s.c("k.disconnect", self.k)
            self.pump(2)
            s.clock(2500)
        for _ in range(6):
            s.run(1)
            if self.st()[3]:
                break
            s.clock(2500)
        while s.inbox:
            x = s.inbox.pop(0)
            if x["k"] == "stanza" and self.active:
                self.got.append(x["raw"])
        self.active = False

    def drain(self):
        s = self.s
        if not self.up():
            return
        self.plan([])
        idle = 0
        for _ in range(600):
            n = len(s.tr)
            self.pump()
            idle = 0 if any(e["e"] in ("rd", "wire", "rx") for e in s.tr[n:]) else idle + 1
            if idle == 3:
                break
        if self.up() and idle == 3:
            s.add("drained")

    def move(self):
        """the state goes to another connection object"""
        s = self.s
        a, b = self.k, 1 - self.k
        if not (self.st()[3]):
            return
        y = self.r.random()
        last = None
        for e in reversed(s.tr):
            if e["e"] == "sm" and e["k"] == a:
                last = e["d"]
                break
        if self.persist and last:
            # the application was restarted: only the last state it got is left
            s.c("k.release", a)
            s.add("free")
            s.add("wipe")
            self.mk(b)
            d = bytes.fromhex(last)
            if s.c("k.restore", b, d)["rc"]:
                s.add("badblob")
            else:
                s.add("restore", d=d)
                for _ in range(self.r.choice([0, 0, 1, 2])):
                    self.drop()
                    self.qlen()
            return
        if s.c("k.getsm", a, 0)["ok"]:
            if y < 0.2:
                s.c("k.freesm", 0)
                s.add("free")
                # the queue stays where it is
            s.c("k.release", a)
            s.add("wipe")
            self.mk(b)
            if y >= 0.2:
                if s.c("k.setsm", b, 0)["rc"]:
                    raise RuntimeError("setsm")


def compact(tr):
    out = []
    raw = False      # after a restoration the library's own elements are like others
    for e in sim.consumed(tr):
        x = e["e"]
        d = None
        if x == "dial":
            if e["rc"] == 0:
                raw = False
                d = dict(e="dial")
        elif x == "cb":
            d = dict(e={"connect": "up", "disconnect": "down"}.get(e["ce"], "other"))
            if d["e"] == "other":
                d = None
        elif x == "restore":
            b = blob(e["d"])
            raw = True
            d = dict(e="badblob") if not b else dict(e="restore", cnt=b["cnt"], hin=b["hin"], id=b["id"], q=[lab(t) for t in b["q"]], un=[dict(x=lab(t), n=n) for n, t in b["un"]])
        elif x == "qlen":
            d = dict(e="qlen", n=e["n"])
        elif x in ("free", "wipe", "drained", "nodrop", "badblob"):
            d = dict(e=x)
        elif x == "q":
            d = dict(e="q", x=lab(e["d"]))
        elif x == "drop":
            d = dict(e="drop", x=lab(e["d"]), w=e["w"])
        elif x == "tx":
            k = e["k"]
            if k == "bind":
                d = dict(e="bind")
            elif k == "enable":
                d = dict(e="enable")
            elif k == "resume":
                d = dict(e="resume", h=num(e.get("sm_h")), id=e.get("sm_previd") or "")
            elif k == "a":
                d = dict(e="a", h=num(e.get("sm_h")))
            elif k == "stanza":
                d = dict(e="stz", x=lab(e["raw"]))
        elif x == "rx":
            k = e.get("k")
            if k == "enabled":
                d = dict(e="enabled", can=e["can"], id=e["sid"])
            elif k in ("resumed", "failed", "ack"):
                d = dict(e=k, h=e["h"])
            elif k == "r":
                d = dict(e="r")
            elif k == "stanza":
                d = dict(e="in")
            elif k == "batch":
                for y in e["b"]:
                    out.append(dict(e="in") if y == "s" else dict(e="r") if y == "r" else dict(e="ack", h=y))
        elif x == "sm":
            if e["d"]:
                b = blob(bytes.fromhex(e["d"]))
                d = dict(e="badblob") if not b else dict(e="blob", cnt=b["cnt"], hin=b["hin"], id=b["id"],
                         q=[lab(t) for t in b["q"] if raw or not t.startswith((b"<r xmlns='urn:xmpp:sm:3'", b'<r xmlns="urn:xmpp:sm:3"', b"<a ", b"</stream"))],
                         un=[dict(x=lab(t), n=n) for n, t in b["un"]])
        if d:
            out.append(d)
    return out


def num(x):
    return int(x) if x is not None and x.isdigit() and len(x) < 9 else -7


def walk(g, n):
    r, s = g.r, g.s
    for _ in range(n):
        if not g.up():
            break
        y = r.random()
        if y < 0.35:
            for _ in range(r.choice([1, 1, 2, 5]) if g.blobs or r.random() < 0.997 else 300):
                g.put()
        elif y < 0.47:
            g.stanza()
        elif y < 0.55:
            g.say("<r xmlns='%s'/>" % SMNS, "r")
        elif y < 0.63 and not g.blobs and not g.chunked:
            b, d = [], ""
            for _ in range(r.randint(2, 6)):
                if r.random() < 0.6:
                    g.inn += 1
                    d += r.choice(["<message id='i%d'/>", "<iq type='get' id='i%d'><a xmlns='b'/></iq>", "<presence id='i%d'/>"]) % g.inn
                    b.append("s")
                else:
                    d += "<r xmlns='%s'/>" % SMNS
                    b.append("r")
            g.say(d, "batch", b=b)
        elif y < 0.72:
            if r.random() < 0.15:
                g.ack(raw=[r.choice(BOGUS)])
            else:
                g.ack()
        elif y < 0.8:
            g.plan()
        elif y < 0.85:
            g.drop()
        elif y < 0.88:
            g.drain()
        elif y < 0.93:
            g.qlen()
        if r.random() < 0.6:
            g.pump(r.choice([1, 1, 2]))


def scenario(g, r):
    s = g.s
    for c in range(r.choice([1, 2, 3, 4, 6])):
        kn = {}
        if r.random() < 0.1:
            kn["sm"] = False
        kn["resume"] = r.choice(["ok"] * 6 + ["fail", "failh", "failh", "nofeature", "silent"])
        kn["enable"] = r.choice(["ok"] * 8 + ["noresume", "failed", "silent"])
        if r.random() < 0.1:
            kn["answer"] = False
        if g.connect(**kn):
            if r.random() < 0.3:
                s.c("k.hadd", g.k, 0, None, b"message", None, -1, 0)
            walk(g, r.choice([0, 1, 2, 3] if g.choke else [3, 10, 25]))
            if r.random() < 0.5:
                g.drain()
        if g.fd is None:
            break
        if g.choke and r.random() < 0.5 and g.up():
            g.drop()
            g.qlen()
        g.lose()
        if not g.st()[3]:
            break
        for _ in range(r.choice([0, 0, 1, 3])):
            g.qlen()
            g.drop()
        if r.random() < (0.6 if g.persist else 0.15):
            g.move()


def play(h, job):
    r = random.Random("sm-%s" % (job,))
    g = Logical(h, r)
    scenario(g, r)
    return {"tr": compact(g.s.tr)}


BLOCK = ",".join(["-1"] * 60)


def prog(h, moves):
    """replays a behaviour of ModelSm: one write of it is one element"""
    r = random.Random(1)
    g = Logical(h, r, tls=False, blobs=True, quiet=True)
    g.sess = g.big = False
    g.block = True
    s = g.s
    for m in moves:
        x = m["m"]
        if x == "connect":
            if not g.connect(sm=m["sm"], enable=m["enable"], resume=m["resume"], h=m["h"], answer=False):
                break
        elif x == "q":
            g.put()
        elif x == "write":
            for _ in range(3):      # the library's <r/> are no elements of the model
                n = len(s.tr)
                s.c("n.wplan", g.fd, "100000," + BLOCK)
                s.run(0)
                if any(e["e"] == "tx" and e["k"] in ("stanza", "a") for e in s.tr[n:]):
                    break
        elif x == "ack":
            g.ack(h=m["h"])
            s.run(0)
        elif x == "in":
            g.stanza()
            s.run(0)
        elif x == "r":
            g.say("<r xmlns='%s'/>" % SMNS, "r")
            s.run(0)
        elif x == "lose":
            s.eof(g.fd, -1)
            for _ in range(4):
                s.run(0)
                if g.st()[3]:
                    break
            g.active = False
    if not g.up():
        g.connect(sm=True, enable="ok", resume="ok", answer=False)
    s.inbox.clear()
    g.drain()
    return {"tr": compact(s.tr)}


MODEL = "INIT Init\nNEXT Next\nINVARIANTS Agrees NoLoss Once Ordered Counts\nVIEW View\nCONSTANTS Rules={\"C04\",\"C05\",\"C06\",\"C16\"} MaxMoves=%d MaxX=3 MaxC=%d Exp=0\n"
SIM = "INIT Init\nNEXT Next\nINVARIANT Export\nCONSTANTS Rules={} MaxMoves=%d MaxX=8 MaxC=%d Exp=1\n"


def run(ck, rules='{"C04"}'):
    CERTS[0] = certs.basic(os.path.join(ck.work, "certs"))
    n = 1200 if ck.quick else 60000
    C = "CONSTANT Rules = %s\n" % rules
    cs = traces.run(ck, "CasesSm", ["%s-%d-%d" % (ck.prop, ck.seed, i) for i in range(n)], play, consts=C)
    ck.model("ModelSm", MODEL % ((11, 3) if ck.quick else (17, 4)), timeout=3000)
    for d, c in ((12, 3), (24, 5)):
        pr = traces.programs(ck, "ModelSm", SIM % (d, c), 500 if ck.quick else 8000, d + 2, timeout=600)
        cs += traces.run(ck, "CasesSm", pr, prog, name="prog%d" % d, consts=C)
    ok = [c for c in cs if c]
    cnt = {}
    for c in ok:
        for e in c["tr"]:
            cnt[e["e"]] = cnt.get(e["e"], 0) + 1
    ck.cov["by_event"] = cnt
    ck.samples += [c["tr"][:40] for c in ok[:2]]

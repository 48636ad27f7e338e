"""C11: handler registration and dispatch (spec/Handlers.tla)."""
import random, re
import core, sim, traces, vh

NAMES = ["message", "iq", "presence", "foo", "message", "iq", "presence", "foo", "Foo", "fo", "MESSAGE", "iqq"]
NSS = ["jabber:client", "urn:a", "urn:b", "urn:a", "urn:b", "urn:A", "urn:ab"]
IDS = ["1", "1", "2", "3", "1", "1", "2", "a", "A", "11"]
TYPES = ["x", "y", "x", "y", "X", "xy"]


class Rec:
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.comp = {}
        self.fdk = {}

    def do(self, e):
        """one registration call; e is the specification's event"""
        s, k = self.s, e.get("k", 0)
        o = lambda x: None if x == "-" else x.encode()
        t = {"iadd": lambda: ("k.iadd", k, e["f"], o(e["id"]), e["u"], -1),
             "idel": lambda: ("k.idel", k, e["f"], o(e["id"])),
             "hadd": lambda: ("k.hadd", k, e["f"], o(e["ns"]), o(e["nm"]), o(e["ty"]), e["u"], -1),
             "hdel": lambda: ("k.hdel", k, e["f"]),
             "tadd": lambda: ("k.tadd", k, e["f"], e["per"], e["u"], -1),
             "tdel": lambda: ("k.tdel", k, e["f"]),
             "gadd": lambda: ("gadd", 0, e["f"], e["per"], e["u"], -1),
             "gdel": lambda: ("gdel", 0, e["f"])}[e["e"]]()
        s.add("hc", rec=dict(e))
        s.c(*t)

    def stanza(self, k, z, opt=0):
        """sends a stanza; z: id ns nm ty kids=[(ns, deep)]"""
        self.n += 1
        dflt = "jabber:client" if not self.comp.get(k) else sim.NS["compn"]
        if z["ns"] == "jabber:client":
            z = dict(z, ns=dflt)
        at = " n='%d'" % self.n
        if z["id"] != "-":
            at += " id='%s'" % z["id"]
        if z["ty"] != "-":
            at += " type='%s'" % z["ty"]
        if z["ns"] != dflt:
            at += " xmlns='%s'" % z["ns"]
        kids, cns = "", []
        for kind, ns in z["kids"]:
            if kind == "d":      # default namespace declared
                kids += "<c xmlns='%s' type='y'/>" % ns
                cns.append(ns)
            elif kind == "p":    # prefixed
                kids += "<p:c xmlns:p='%s'/>" % ns
                cns.append(ns)
            elif kind == "i":    # inherited
                kids += "<iq/>"
                cns.append(z["ns"])
            elif kind == "t":
                kids += "text"
            elif kind == "g":    # only a grandchild is in ns
                kids += "<c xmlns='urn:mid'><d xmlns='%s'/></c>" % ns
                cns.append("urn:mid")
        fd = self.s.cur[k]
        self.s.add("hc", rec=dict(e="stz", k=k, id=z["id"], ns=z["ns"], nm=z["nm"], ty=z["ty"], cns=cns, n=self.n, opt=opt))
        return "<%s%s>%s</%s>" % (z["nm"], at, kids, z["nm"])

    def trace(self):
        out = []
        k_of = {fd: k for k, fd in self.s.cur.items()}
        arm, started = set(), set()
        sent, got, wait = {}, {}, {}
        for e in self.s.tr:
            x, t = e["e"], e["t"]
            if x == "hc" and e["rec"]["e"] == "stz":
                # takes effect when its last byte is read
                wait.setdefault(e["rec"]["k"], []).append([e["rec"], None])
                continue
            if x == "rx":
                fd = e["fd"]
                base = sent.get(fd, 0)
                sent[fd] = base + len(e["raw"])
                for w in wait.get(self.fdk.get(fd, 0), []):
                    if w[1] is None:
                        w[1] = (fd, base + e["ends"][w[0]["n"]]) if "ends" in e else (fd, sent[fd])
            if x == "rd":
                fd = e["fd"]
                got[fd] = got.get(fd, 0) + e["n"]
                k = self.fdk.get(fd, 0)
                q = wait.get(k, [])
                while q and q[0][1] and q[0][1][0] == fd and q[0][1][1] <= got[fd]:
                    out.append(dict(q.pop(0)[0], t=t))
            if x == "hc":
                out.append(dict(e["rec"], t=t))
            elif x == "rx" and e.get("k") == "open":
                arm.add(e["fd"])
            elif x == "rd" and e["fd"] in arm:
                arm.discard(e["fd"])
                k = e.get("ck", self.fdk.get(e["fd"], 0))
                out.append(dict(e="arm", k=k, t=t, first=0 if e["fd"] in started else 1))
                started.add(e["fd"])
            elif x == "cb":
                if e["ce"] in ("connect", "raw"):
                    if e["ce"] == "raw":
                        out.append(dict(e="arm", k=e["k"], t=t, first=1))
                    out.append(dict(e="up", k=e["k"], t=t))
                else:
                    out.append(dict(e="down", k=e["k"], t=t))
            elif x == "h":
                m = re.search(rb' n="(\d+)"', bytes.fromhex(e["xml"]))
                out.append(dict(e="h", k=e["k"], f=e["f"], u=e["u"], n=int(m.group(1)) if m else 0))
            elif x == "th":
                out.append(dict(e="th", k=e["k"], f=e["f"], u=e["u"], t=t))
            elif x == "gh":
                out.append(dict(e="gh", f=e["f"], u=e["u"], t=t))
            elif x == "loop":
                out.append(dict(e="loop", t=t))
            elif x == "ret":
                out.append(dict(e="ret", v=e["v"]))
            elif x == "quiet":
                out.append(dict(e="quiet"))
        return out


def up(rec, k, kind="client", opt=None):
    """connect slot k completely"""
    s = rec.s
    if kind == "component":
        sv = sim.Server(ns=sim.NS["compn"])
        r = sim.dial(s, k, b"127.0.0.1", 5347, "component")
    elif kind == "raw":
        sv = sim.Server()
        r = sim.dial(s, k, b"127.0.0.1", 5222, "raw")
    else:
        sv = sim.Server()
        r = sim.dial(s, k)
    if r["rc"] != 0:     # still closing down
        return None
    rec.fdk[s.cur[k]] = k

    def last(id, ns, nm, ty, cns):
        # the element that completes the negotiation: whether user handlers see it is not judged
        def f(sm, x):
            s.add("hc", rec=dict(e="stz", k=k, id=id, ns=ns, nm=nm, ty=ty, cns=cns, n=0, opt=1))
            return True
        return f
    sv.hooks["bind"] = last("_xmpp_bind1", "jabber:client", "iq", "result", [sim.NS["bind"]])
    sv.hooks["handshake"] = last("-", sim.NS["compn"], "handshake", "-", [])
    s.settle(sv)
    return sv


def start(h, nconn=1):
    s = sim.Sim(h)
    rec = Rec(s)
    for k in range(nconn):
        s.c("k.new", k, 0)
        s.c("k.jid", k, b"u@example.org/r")
        s.c("k.pass", k, b"secret")
        s.c("k.flags", k, 1)
    return s, rec


def finish(s, rec):
    s.ask_fn = None
    s.add("quiet")
    return {"tr": rec.trace()}


# ------------------------------------------------------------------ programs exported by TLC
def replay(h, prog):
    s, rec = start(h)
    sv = up(rec, 0)
    st = {"i": 0}

    def ask(ev):
        i = st["i"]
        if ev["ev"] != "h" or i >= len(prog) or prog[i]["e"] != "h":
            s.add("ret", v=1)
            return 1
        i += 1
        while i < len(prog) and prog[i]["e"] != "ret":
            if prog[i]["e"] in ("stz", "quiet", "h"):
                break
            rec.do(prog[i])
            i += 1
        v = 1
        if i < len(prog) and prog[i]["e"] == "ret":
            v = prog[i]["v"]
            i += 1
        st["i"] = i
        s.add("ret", v=v)
        return v
    s.ask_fn = ask
    while st["i"] < len(prog):
        e = prog[st["i"]]
        st["i"] += 1
        if e["e"] in ("h", "ret"):
            continue
        if e["e"] == "quiet":
            s.add("quiet")
            continue
        if e["e"] == "stz":
            z = dict(id=e["id"], ns="urn:a", nm=e["nm"], ty=e["ty"], kids=[("d", c) for c in e["cns"]])
            s.send(s.cur[0], rec.stanza(0, z))
            s.settle(sv)
            continue
        rec.do(e)
    return finish(s, rec)


# ------------------------------------------------------------------ random programs
def rnd_stanza(r):
    return dict(id=r.choice(["-", "-", r.choice(IDS), r.choice(IDS)]), ns=r.choice(NSS + ["jabber:client"] * 2), nm=r.choice(NAMES),
                ty=r.choice(["-", r.choice(TYPES), r.choice(TYPES)]),
                kids=[(r.choice("ddpitg"), r.choice(["urn:a", "urn:b", "urn:c", "urn:a", "urn:b", "jabber:client", "jabber:client", "urn:B", "urn:"])) for _ in range(r.choice([0, 0, 1, 2, 3]))])


def rnd_move(r, nc, busy=None, timers=True):
    k = r.randrange(nc)
    f, u = r.randrange(4), r.choice([-1, 0, 0, 1])
    opts = ["hadd"] * 5 + ["iadd"] * 4 + ["hdel", "idel"] + (["tadd"] * 3 + ["tdel", "gadd", "gdel"] if timers else [])
    o = r.choice(opts)
    e = dict(e=o, k=k, f=f)
    if o in ("hadd", "iadd", "tadd", "gadd"):
        e["u"] = u
    if o == "hadd":
        e.update(ns=r.choice(["-", "-"] + NSS + ["urn:c"]), nm=r.choice(["-", "-", "-"] + NAMES), ty=r.choice(["-", "-", "-", r.choice(TYPES), r.choice(TYPES)]))
    elif o in ("iadd", "idel"):
        e["id"] = r.choice(IDS)
    elif o in ("tadd", "gadd"):
        e["per"] = r.choice([0, 1, 3, 10, 10, 50, 100, 1000])
    if busy and o in ("hadd", "iadd", "tadd", "gadd") and busy[0] == f:
        return None    # registering the running callback again before it returns: not generated
    return e


def random_prog(h, seed):
    r = random.Random("c11-%s" % seed)
    nc = r.choice([1, 1, 2])
    s, rec = start(h, nc)
    s.ask_fn = None
    budget = [r.choice([0, 3, 8, 20, 40])]
    keep = r.choice([0.5, 0.8, 0.95])
    timers = r.random() < 0.6
    slow, hang = timers and r.random() < 0.2, r.random() < 0.15

    def ask(ev):
        while budget[0] > 0 and r.random() < 0.5:
            budget[0] -= 1
            m = rnd_move(r, nc, (ev["f"], ev["u"]), timers)
            if m:
                rec.do(m)
        if slow and r.random() < 0.3:
            s.clock(r.choice([1, 5, 40, 300]))      # a callback takes its time
        if hang and r.random() < 0.05 and ev["f"] < 4:
            s.c("k.disconnect", ev["k"]) if "k" in ev else None
        v = 1 if r.random() < keep else 0
        s.add("ret", v=v)
        return v
    s.ask_fn = ask
    kinds = [r.choice(["client", "client", "client", "component", "raw"]) for _ in range(nc)]
    # a raw connection or a component gets its own flags
    for k in range(nc):
        if kinds[k] == "component":
            rec.comp[k] = 1
            s.c("k.jid", k, b"comp.example.org")
    for _ in range(r.choice([0, 0, 2])):
        m = rnd_move(r, nc, None, timers)
        # a pre-registered handler may see the last negotiation element; that is C03's business
        if m and (m["e"] in ("tadd", "gadd", "iadd") or (m["e"] == "hadd" and m["ns"] in ("urn:a", "urn:b", "urn:c"))):
            rec.do(m)
    sv = {}
    alive = set()
    for _ in range(r.choice([8, 15, 30])):
        x = r.random()
        k = r.randrange(nc)
        for j in list(alive):
            if not s.live(s.cur[j]):
                alive.discard(j)
                setattr(rec, "opened%d" % j, 0)
        if k not in alive and r.random() < 0.6:
            if r.random() < 0.3:
                s.clock(r.choice([5, 60, 2000]))
                s.run(1)
            sv[k] = up(rec, k, kinds[k])
            if sv[k]:
                alive.add(k)
            continue
        if x < 0.35:
            m = rnd_move(r, nc, None, timers)
            if m:
                rec.do(m)
        elif x < 0.75 and k in alive:
            if kinds[k] == "raw" and r.random() < 0.7 and not getattr(rec, "opened%d" % k, 0):
                s.c("k.open", k)
                setattr(rec, "opened%d" % k, 1)
                # only a stream header; negotiation is not done on raw connections
                s.inbox.clear()
                s.run(1)
                s.inbox.clear()
                s.send(s.cur[k], sim.hdr(), k="open")
                s.settle(None)
                s.inbox.clear()
                s.add("quiet")
                continue
            if kinds[k] == "raw" and not getattr(rec, "opened%d" % k, 0):
                continue
            n = r.choice([1, 1, 1, 2, 4])
            parts = [rec.stanza(k, rnd_stanza(r)) for _ in range(n)]
            data = "".join(parts)
            ends, m = {}, 0
            for i, x in enumerate(parts):
                m += len(x)
                ends[rec.n - n + 1 + i] = m
            s.send(s.cur[k], data, ends=ends)
            s.settle(None)
            s.inbox.clear()
            s.add("quiet")
        elif x < 0.9:
            s.clock(r.choice([0, 1, 2, 5, 9, 10, 11, 49, 50, 99, 100, 101, 999, 1000, 1500]))
            for _ in range(r.choice([1, 1, 2, 3])):
                s.run(r.choice([0, 1, 5, 20, 100]))
            s.inbox.clear()
        elif x < 0.94 and k in alive:
            y = r.random()
            if y < 0.4:
                s.eof(s.cur[k])
            elif y < 0.65:
                # the server doesn't end its stream: user's timers are due with the library's own ones
                add = lambda: timers and r.random() < 0.7 and rec.do(
                    dict(e="tadd", k=k, f=r.randrange(4), per=r.choice([100, 1000, 1999, 2000, 2001]), u=r.choice([-1, 0, 1])))
                add()
                s.c("k.disconnect", k)
                add()
                for _ in range(4):
                    s.clock(r.choice([0, 500, 999, 1000, 2000, 2000]))
                    s.run(r.choice([0, 1]))
                s.clock(2500)
                s.run(1)
            else:
                s.c("k.disconnect", k)
                s.run(1)
                s.send(s.cur[k], "</stream:stream>")
            s.settle(None)
            s.inbox.clear()
            alive.discard(k)
            setattr(rec, "opened%d" % k, 0)
    return finish(s, rec)


def play(h, job):
    return replay(h, job[1]) if job[0] == "p" else random_prog(h, job[1])


def run(ck):
    ck.model("ModelHandlers", "INIT MInit\nNEXT MNext\nINVARIANT Agree\nVIEW View\nCONSTANTS MaxMoves=%d MaxKeys=5 NF=%d Exp=FALSE\n"
             % ((4, 1) if ck.quick else (5, 1)), timeout=3000)
    progs = traces.programs(ck, "ModelHandlers",
                            "INIT MInit\nNEXT MNext\nINVARIANT Export\nCONSTANTS MaxMoves=%d MaxKeys=12 NF=2 Exp=TRUE\n" % (14 if ck.quick else 22),
                            1500 if ck.quick else 20000, 80, timeout=700)
    n = 2500 if ck.quick else 40000
    jobs = [("p", p) for p in progs] + [("r", "%d-%d" % (ck.seed, i)) for i in range(n)]
    cs = traces.run(ck, "CasesHandlers", jobs, play)
    ck.cov["handler_calls"] = sum(1 for c in cs if c for e in c["tr"] if e["e"] in ("h", "th", "gh"))
    ck.samples += [c["tr"][:25] for c in cs[:1] if c]

"""C12: ownership (spec/Own.tla).

The scenarios of the other checks (sessions, handshakes, lookups, stanza programs ...) are run with the
block accounting of the harness switched on; what each call allocates and frees is the trace.  At the
end everything the program still holds is released in a random order, then the context."""
import os, random
import certs, core, scen, sim, stz, tlc, traces, vh
import p_c01, p_c03, p_c04, p_c06, p_c07, p_c08, p_c09, p_c11, p_c13, p_c14, p_c16, p_c20


# ------------------------------------------------------------------ log -> trace
def trace(log):
    """events of Own.tla; parts of a call that asks the program something are calls of their own"""
    tr, st, sblk = [], [], []
    nctx = 0

    def op(line, r, blk, part):
        t = line.split()
        c = t[0]
        d = [x for x in blk[1]] if blk else []
        if c[:2] == "s.":
            return dict(e="s*", d=d)
        if c[:2] == "k." or c == "k":
            c = c[2:]
            k = int(t[1])
            if c == "new":
                return dict(e="knew", k=k, c=int(t[2]), d=d)
            if c == "freesm":
                return dict(e="freesm", m=k, d=d)
            if part:
                return dict(e="kop", k=k, d=d)
            if c == "clone":
                return dict(e="kclone", k=k, same=r["same"], d=d)
            if c == "release":
                return dict(e="krel", k=k, freed=r["freed"], d=d)
            if c == "getsm":
                return dict(e="getsm", k=k, m=int(t[2]), ok=r["ok"], d=d)
            if c == "setsm":
                return dict(e="setsm", k=k, m=int(t[2]), rc=r["rc"], d=d)
            return dict(e="kop", k=k, d=d)
        if c == "run":
            return dict(e="run", c=int(t[1]), d=d)
        if c in ("gadd", "gdel"):
            return dict(e="ctxop", c=int(t[1]), d=d)
        if c == "ctx":
            return dict(e="ctx", c=int(t[1]), d=d)
        if c == "ctxfree":
            return dict(e="ctxfree", c=int(t[1]), live=r["live"], bad=r["bad"], ai=r["ai"], d=d)
        if not d:
            return None
        return dict(e="pure", d=d)

    for e in log:
        k = e["ev"]
        if k == "cmd":
            st.append(e["line"])
            if e["line"].startswith("ctx "):
                nctx += 1
        elif k == "part":
            if st:
                x = op(st[-1], None, e["blk"], True)
                if x and x["e"] != "s*":
                    tr.append(x)
        elif k == "res":
            line = st.pop()
            if line.split()[0] in ("reset", "acct"):
                continue
            x = op(line, e["r"], e["r"].get("blk"), False)
            if x and x["e"] == "s*":
                sblk = x["d"]
                if sblk and not line.startswith("s.alias") and "sop" not in e:
                    tr.append(dict(e="s*", d=sblk))
            elif x:
                if x["e"] in ("run", "kop", "pure") and not x["d"]:
                    continue
                tr.append(x)
        elif k == "sop":
            if tr and tr[-1]["e"] == "s*":
                tr.pop()
                tr.append(dict(e="s", o=e["o"], d=sblk))
            else:
                tr.append(dict(e="s", o=e["o"], d=[]))
        elif k == "wire":
            if tr and tr[-1]["e"] == "s*":
                tr.pop()
            tr.append(dict(e="wire", i=e["i"], k=e["k"], tree=e["tree"], d=[]))
        elif k == "bypass":
            tr.append(dict(e="bypass", fn=e["fn"], first=1 if e.get("first") else 0, d=[]))
        elif k == "badfree":
            tr.append(dict(e="badfree", d=[]))
    for x in tr:
        if x["e"] == "s*":
            x["e"] = "pure"
    return tr


def held(log):
    """what the program holds at the end: contexts, connection references, states"""
    C, K, M, st = [], {}, set(), []
    for e in log:
        if e["ev"] == "cmd":
            st.append(e["line"])
        elif e["ev"] == "res":
            t, r = st.pop().split(), e["r"]
            if t[0] == "ctx":
                C.append(int(t[1]))
            elif t[0] == "ctxfree":
                C.remove(int(t[1]))
            elif t[0] == "k.new":
                K[int(t[1])] = [1, int(t[2])]
            elif t[0] == "k.clone":
                K[int(t[1])][0] += 1
            elif t[0] == "k.release":
                K[int(t[1])][0] -= 1
            elif t[0] == "k.getsm" and r["ok"]:
                M.add(int(t[2]))
            elif t[0] == "k.setsm" and r["rc"] == 0:
                M.discard(int(t[2]))
            elif t[0] == "k.freesm":
                M.discard(int(t[1]))
    return C, K, M


def finish(h, r, stanzas=()):
    C, K, M = held(h.log)
    todo = [("k", k) for k in K for _ in range(K[k][0])] + [("m", m) for m in M] + [("s", i) for i in stanzas]
    r.shuffle(todo)
    h.on_ask = lambda e: 1
    for w, i in todo:
        if w == "k":
            if r.random() < .3:
                h.cmd("run %d 1" % K[i][1])
            h.cmd("k.release %d" % i)
        elif w == "m":
            h.cmd("k.freesm %d" % i)
        else:
            stz.play(h, [("s.tree %d" % i, dict(op="tree", i=i)), ("s.release %d" % i, dict(op="release", i=i))])
    for c in C:
        if r.random() < .3:
            h.cmd("run %d 1" % c)
        h.cmd("ctxfree %d" % c)


# ------------------------------------------------------------------ sources
def src_sm(h, j):
    return p_c04.play(h, j)


SRC = {
    "nego": lambda h, j: p_c03.play(h, ("dev" if len(j) % 2 else "coop", j)),
    "sm": src_sm,
    "sendq": lambda h, j: p_c06.play(h, j),
    "sasl": lambda h, j: p_c07.session(h, j),
    "tls": lambda h, j: p_c08.free(h, j),
    "stanza": lambda h, j: p_c09.item(h, j),
    "handlers": lambda h, j: p_c11.play(h, ("r", j)),
    "life": lambda h, j: p_c13.play(h, j),
    "disco": lambda h, j: p_c14.play(h, j),
    "blob": lambda h, j: p_c16.use(h, j),
    "blobs": lambda h, j: p_c16.sessions(h, j),
    "zip": lambda h, j: p_c20.play(h, j),
    "hostile": lambda h, j: p_c01.play(h, j, False),
    "app": lambda h, j: app(h, j),
    "model": lambda h, j: model(h, j),
}


class App:
    """holds on to what arrives"""
    def __init__(self, h, r):
        self.h, self.r, self.held, self.n = h, r, [], 0

    def slot(self):
        f = [i for i in range(1, 38) if i not in self.held]
        return f[0] if f else None

    def op(self, line, **o):
        return stz.play(self.h, [(line, o)])[0]

    def callback(self, ev):
        """in a stanza handler"""
        h, r = self.h, self.r
        i = self.slot()
        if ev.get("ev") != "h" or ev["f"] != 0 or i is None or r.random() < .3:
            return
        h.cmd("s.alias 40 -1")
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            x = h.cmd("s.alias 39 40 %s" % r.choice(["child", "child", "next"]))[1]
            if not x["ok"]:
                break
            h.cmd("s.alias 40 39")
        h.cmd("s.clone %d 40" % i)
        t = h.cmd("s.tree %d" % i)[1]["tree"]
        h.cmd("s.forget 40")
        h.cmd("s.forget 39")
        h.log.append({"ev": "wire", "i": i, "k": ev["k"], "tree": stz.treerec(t)})
        self.held.append(i)

    def work(self):
        h, r = self.h, self.r
        if not self.held:
            return
        x = r.choice(self.held)
        i = self.slot()
        y = r.random()
        if y < .25:
            self.op("s.tree %d" % x, op="tree", i=x)
        elif y < .4:
            self.op("s.release %d" % x, op="release", i=x)
            self.held.remove(x)
        elif y < .5 and i:
            self.op("s.copy %d %d" % (i, x), op="copy", i=i, j=x)
            self.held.append(i)
        elif y < .6 and i:
            self.op("s.clone %d %d" % (i, x), op="clone", i=i, j=x)
            self.held.append(i)
        elif y < .7 and i:
            k = self.op("s.info %d" % x, op="info", i=x)
            if k["istag"] and self.op("s.reply %d %d" % (i, x), op="reply", i=i, j=x)["ok"]:
                self.held.append(i)
        elif y < .8 and i:
            if self.op("s.info %d" % x, op="info", i=x)["istag"]:
                v = b"v" * r.choice([0, 1, 30, 500])
                self.op("s.attr %d %s %s" % (x, vh.hx(b"id"), vh.hx(v)), op="attr", i=x, k=b"id", v=v)
        elif y < .9:
            return "send", x
        return None


def app(h, seed):
    """a session whose handlers keep stanzas and their children, use them later and give them back"""
    r = random.Random(seed)
    S = scen.Session(h, r, CERTS[0], p_user=.2, p_dev=r.choice([0, 0, .1]), frag=r.choice([0, .3]))
    a = App(h, r)
    s = S.s

    def asked(ev):
        a.callback(ev)
        return r.choice([1, 1, 1, 1, 0])
    s.ask_fn = asked
    for att in range(r.choice([1, 1, 2, 3])):
        S.draw(flags=None if r.random() < .3 else {"dis": 1}, kind="client")
        S.cfg["pass"] = 1
        S.apply()
        S.draw_server()
        if not S.dial():
            continue
        for f in range(r.choice([1, 2])):
            s.c("k.hadd", 0, f, *(r.choice([None, None, b"urn:a"]), r.choice([None, b"message", b"iq"]), None), -1, -1)
        S.rounds(r.choice([8, 14, 30]))
        fd = s.cur.get(0)
        for _ in range(r.randrange(12)):
            if s.live(fd) and r.random() < .6:
                s.send(fd, r.choice([
                    "<message from='a@b' id='1'><body>t&amp;t</body><x xmlns='urn:a'><y a='1'/><y a='2'>z</y></x></message>",
                    "<iq type='get' id='q' from='x@y/z'><q xmlns='urn:a'>%s</q></iq>" % ("w" * r.choice([1, 100, 3000])),
                    "<presence from='p@q'/><presence from='p@q' type='unavailable'><c xmlns='urn:a'/></presence>",
                    "<message from='a@b' type='error'><error/></message>"]))
            w = a.work()
            if w:
                s.c("k.send", 0, w[1])
            if r.random() < .5:
                s.run(1)
        if r.random() < .7:
            S.finish()
        if r.random() < .2:
            s.c("k.clone", 0)
    return a.held


def model(h, moves):
    """a behaviour of ModelOwn.tla: two connections, a state outside of them, two stanza handles"""
    r = random.Random(repr(moves))
    s = sim.Sim(h)
    sv, held, want, out = {}, {1: 0, 2: 0}, [0], 0
    half = {}

    def asked(ev):
        if ev.get("ev") == "h" and want[0]:
            i, want[0] = want[0], 0
            h.cmd("s.alias 40 -1")
            for _ in range(r.choice([0, 0, 1, 2])):
                if h.cmd("s.alias 39 40 child")[1]["ok"]:
                    h.cmd("s.alias 40 39")
            h.cmd("s.clone %d 40" % i)
            t = h.cmd("s.tree %d" % i)[1]["tree"]
            h.cmd("s.forget 40")
            h.cmd("s.forget 39")
            h.log.append({"ev": "wire", "i": i, "k": ev["k"], "tree": stz.treerec(t)})
            held[i] = 1
        return 1
    s.ask_fn = asked

    def serve(s, x):
        for k in sv:
            if s.cur.get(k) == x["fd"]:
                sim.count_stanzas(sv[k], x)
                sv[k](s, x)

    def op(line, **o):
        return stz.play(h, [(line, o)])[0]
    for m in moves:
        a, k = m[0], (m[1] if len(m) > 1 else 0)
        fd = s.cur.get(k)
        if a == "new":
            sim.client(s, k, flags=1, connect=False)
            s.c("k.hadd", k, 1, None, b"message", None, -1, -1)
            sv[k] = sim.Server(post=("bind", "sm"))
        elif a == "clone":
            s.c("k.clone", k)
        elif a == "rel":
            s.c("k.release", k)
        elif a == "dial":
            old = sv[k].h
            sv[k].new_connection()
            sv[k].h = old
            sv[k].resume_ok = r.random() < .5
            sim.dial(s, k)
        elif a == "up":
            s.settle(serve)
        elif a == "eof":
            if s.live(fd):
                s.ends(fd, r)
            s.settle(serve, 4)
        elif a == "bye":
            s.c("k.disconnect", k)
            s.settle(serve, 6)
        elif a == "send":
            s.c("k.sendxml", k, b"<message id='u%d'><body>x</body></message>" % r.randrange(9))
        elif a == "run":
            s.run(1)
            if r.random() < .5:
                s.settle(serve, 4)
        elif a == "ack":
            if s.live(fd):
                s.send(fd, "<a xmlns='%s' h='%d'/>" % (sim.NS["sm"], sv[k].h), k="ack")
            s.run(1)
        elif a == "part":
            x = "<message from='a@b'><body>b%d</body><x xmlns='urn:a'><y/><z>t&amp;u</z></x></message>" % r.randrange(9)
            n = r.randrange(9, len(x) - 1)
            half[k] = x[n:]
            if s.live(fd):
                s.send(fd, x[:n], k="part")
            s.run(1)
        elif a == "whole":
            want[0] = m[2]
            if s.live(fd):
                s.send(fd, half.pop(k, "<message/>"), k="stanza")
            s.run(1)
            want[0] = 0
        elif a == "hadd":
            s.c("k.hadd", k, 2, b"urn:x", None, None, -1, 1)
        elif a == "get":
            out = s.c("k.getsm", k, 0)["ok"]
        elif a == "set":
            if out:
                out = 0 if s.c("k.setsm", k, 0)["rc"] == 0 else 1
        elif a == "freem":
            if out:
                s.c("k.freesm", 0)
            out = 0
        elif held.get(k):
            if a == "srel":
                op("s.release %d" % k, op="release", i=k)
                held[k] = 0
            elif not held[m[2]]:
                c = {"sclone": "clone", "scopy": "copy"}[a]
                op("s.%s %d %d" % (c, m[2], k), op=c, i=m[2], j=k)
                held[m[2]] = 1
    return [i for i in held if held[i]]


CERTS = [None]


def play(h, job):
    name, j = job[0], job[1]
    r = random.Random("own" + repr(job))
    if r.random() < .25:
        h.start()
    h.mark = 1
    try:
        x = SRC[name](h, j)
        finish(h, r, x if name in ("app", "model") else ())
        first = True
        return {"tr": trace(mark(h))}
    finally:
        h.mark = 0


def mark(h):
    """bypass events of the first context of the process are marked"""
    n = h.nctx0
    for e in h.log:
        if e["ev"] == "cmd" and e["line"].startswith("ctx "):
            n += 1
        elif e["ev"] == "bypass":
            e["first"] = n <= 1
    return h.log


def two(h, j):
    """known finding: the parsers of any but the first context of a process"""
    h.start()
    h.mark = 1
    try:
        h.reset()
        out = []
        for i in range(2):
            h.cmd("ctx %d 0" % i)
            ev, _ = h.cmd("s.parse 0 %d %s" % (i, vh.hx(b"<message/>")))
            out.append([e["fn"] for e in ev if e["ev"] == "bypass"])
            h.cmd("s.release 0")
        return out
    finally:
        h.mark = 0


def setup(ck):
    CERTS[0] = c = certs.basic(os.path.join(ck.work, "certs"))
    for m in (p_c03, p_c04, p_c06, p_c13, p_c20):
        m.CERTS[0] = c
    p_c07.WORK[0] = ck.work
    p_c08.WORK[0] = os.path.join(ck.work, "tls")


def run(ck):
    setup(ck)
    q = ck.quick
    N = dict(nego=110, sm=60, sendq=40, sasl=40, tls=30, stanza=250, handlers=60, life=120, disco=80, blob=0, blobs=20, zip=40, hostile=150, app=150)
    jobs = []
    for k, n in N.items():
        for i in range(n if q else n * 8):
            sd = "C12-%s-%d-%d" % (k, ck.seed, i)
            if k == "stanza":
                jobs.append((k, (ck.seed * 7919 + i, ck.rng.choice([10, 25, 40]))))
            elif k == "sasl":
                jobs.append((k, (sd, None)))
            else:
                jobs.append((k, sd))
    MC = "INIT %s\nNEXT Next\nINVARIANT %s\nCONSTANTS MaxMoves=%d Exp=%s Mut=\"%s\"\n"
    ck.model("ModelOwn", MC % ("Init", "Held", 8 if q else 10, "FALSE", "") + "VIEW View\n")
    if not q:
        for m in ("keepq", "lostpar", "early", "nodetach"):
            x = ck.tlc("ModelOwn", MC % ("Init", "Held", 9, "FALSE", m) + "VIEW View\n", name="ModelOwn_" + m, count=False)
            if not x.violated:
                raise tlc.TlcError("ModelOwn does not notice '%s'" % m)
    pr = traces.programs(ck, "ModelOwn", MC % ("Init", "Export", 25, "TRUE", ""), 100 if q else 1500, 26)
    jobs += [("model", p) for p in pr]
    ck.rng.shuffle(jobs)
    cs = traces.run(ck, "CasesOwn", jobs, play)
    ck.cov["scenarios_by_source"] = {k: sum(1 for j in jobs if j[0] == k) for k in list(N) + ["model"]}
    ck.cov["blocks"] = sum(x[2] for c in cs if c for e in c["tr"] for x in e["d"] if x[2] > 0)

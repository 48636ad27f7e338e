"""C14: server discovery (spec/Disco.tla)."""
import random
import core, p_c15, sim, tlc, traces

FATES = ["accept", "now", "refuse", "unreach", "late", "latereset", "hang"]
BAD = FATES[2:]


def answer(r, srv):
    """a DNS message which says what the list of records says"""
    m = p_c15.Msg(r, r.choice([0, .5, 1]))
    q = [b"_xmpp-client", b"_tcp", b"example", b"org"]
    extra = r.random() < .2
    m.u16(r.randrange(65536), 0x8180, 1, len(srv) + extra, 0, 0)
    m.name(q)
    m.u16(33, 1)
    for x in srv:
        def fill(m, x=x):
            m.u16(x["p"], x["w"], x["port"])
            m.name(x["t"].encode().split(b"."))
        m.rr(q, 33, 1, r.randrange(1 << 31), fill)
    if extra:
        m.rr(q, r.choice([1, 28, 16]), 1, 1, lambda m: m.b.extend(b"\1\2\3\4"))
    return bytes(m.b)


NXD = bytes.fromhex("12348183000100000000000005") + b"_x" * 2 + b"x\x00\x00\x21\x00\x01"


class Disco:
    def __init__(self, h, r):
        self.s = sim.Sim(h)
        self.r = r
        self.n = 0
        self.tr = []
        for i in (0, 1):
            self.s.c("k.new", i, 0)
        self.net = [0, 0]
        self.so = [0, 0]

    def ev(self, e, k, **kw):
        self.s.add("d", what=dict(e=e, k=k, **kw))

    def dial(self, k, c, fates, seed):
        """c: configuration; fates: {(ip, port): fate}"""
        s, r = self.s, self.r
        s.c("k.jid", k, ("alice@%s" % c["dom"]).encode() if c["kind"] != "component" else c["dom"].encode())
        s.c("k.pass", k, b"pw")
        s.c("k.flags", k, (4 if c["lssl"] else 0) | (0 if c["lssl"] else 1))
        s.c("n.dns", answer(r, c["srv"]) if c["srv"] else r.choice([None, NXD, answer(r, [])]))
        for x in c["hosts"]:
            s.c("n.host", x["h"].encode(), ",".join(x["a"]) if x["a"] else "fail")
        for (ip, port), f in fates.items():
            s.c("n.fate", "%s/%d" % (ip, port), f)
        if c["so"] or self.so[k]:
            s.c("k.sockopt", k, c["so"])
            self.so[k] = 1
        host = None if c["host"] == "-" else c["host"].encode()
        self.s.add("d", what=dict(e="dial", k=k, c=c))
        x = s.c("k." + c["kind"], k, host, c["port"], 0)
        self.ev("dialed", k, rc=0 if x["rc"] == 0 else 1)
        return x["rc"] == 0

    def wait(self, k, raw=False):
        s, r = self.s, self.r
        style = r.choice("AAB")
        for i in range(400):
            if s.pred[k][3]:
                break
            fd = self.used(k)
            if fd:
                break
            if style == "A":
                s.clock(r.choice([1, 900, 2500, 4999, 5000, 5001]))
                s.run(0)
            else:
                s.run(r.choice([1, 100, 3000]))
        y = r.random()
        if y < 0.4 and not s.pred[k][3]:
            fd = self.used(k)
            if fd and s.live(fd) and y < 0.25:
                s.eof(fd)
            else:
                self.ev("udisc", k)
                s.c("k.disconnect", k)
        for _ in range(4):
            s.run(1)
        self.ev("end", k)
        for _ in range(3):
            if s.pred[k][3]:
                break
            self.ev("udisc", k)
            s.c("k.disconnect", k)
            s.clock(2100)
            s.run(0)

    def used(self, k):
        for e in reversed(self.s.tr):
            if e["e"] == "d" and e["what"]["e"] == "dial" and e["what"]["k"] == k:
                return 0
            if e["e"] in ("tx", "hello", "clear") and self.of(e["fd"]) == k:
                return e["fd"]
            if e["e"] == "cb" and e["ce"] == "raw" and e["k"] == k:
                return self.lastfd(k)
        return 0

    def lastfd(self, k):
        for e in reversed(self.s.tr):
            if e["e"] == "connect" and self.of(e["fd"]) == k:
                return e["fd"]

    def of(self, fd):
        """connections use networks of their own"""
        for e in reversed(self.s.tr):
            if e["e"] == "connect" and e["fd"] == fd:
                return owner(e["addr"])


def owner(addr):
    return int(addr.split(".")[1]) - 1 if "." in addr else int(addr.split(":")[1]) - 1


def compact(tr):
    out = []
    of, last, cur = {}, {}, 0
    for e in tr:
        x, t = e["e"], e["t"]
        d = None
        if x == "d":
            d = dict(e["what"])
            cur = d["k"] if d["e"] == "dial" else cur
        elif x == "dns":
            d = dict(e="dns", k=cur, name=bytes.fromhex(e["name"]).decode())
        elif x == "connect":
            ip, port = e["addr"].rsplit("/", 1)
            of[e["fd"]] = k = owner(e["addr"])
            last[k] = e["fd"]
            d = dict(e="connect", k=k, ip=ip, port=int(port), fate=e["fate"], fd=e["fd"])
        elif x in ("tx", "wire", "hello", "clear"):
            d = dict(e="use", k=of[e["fd"]], fd=e["fd"])
        elif x == "cb":
            if e["ce"] == "disconnect":
                d = dict(e="disc", k=e["k"])
            elif e["ce"] == "raw":
                d = dict(e="use", k=e["k"], fd=last.get(e["k"], 0))
        if d:
            d["t"] = t
            out.append(d)
    return out


def ipn(r, k, i):
    return "10.%d.%d.%d" % (k + 1, i // 200, i % 200 + 1) if r.random() < 0.8 else "fd00:%d::%x" % (k + 1, i + 1)


def draw(r, k):
    kind = r.choice(["client", "client", "client", "raw", "component"])
    c = dict(kind=kind, lssl=1 if kind != "component" and r.random() < 0.12 else 0, host="-", port=0, dom="example.org", srv=[], hosts=[], so=0)
    names = ["a.example.org", "b.example.org", "c.example.net", "xmpp.example.org", "d.example.com", "example.org"]
    if r.random() < 0.15:
        # names as long as they may be
        x = r.choice(["x" * 63 + ".", ("y" * 63 + ".") * 3, "z" * 40 + ".", "-.".join("a" * 30) + "."])
        names = [(x + n)[-253:] for n in names]
        c["dom"] = names[-1]
    if kind == "component" or r.random() < 0.3:
        c["host"] = r.choice(names)
    if r.random() < 0.3:
        c["port"] = r.choice([5222, 5223, 1, 65535, 80, 443])
    n = r.choice([0, 0, 1, 2, 3, 3, 4, 6])
    ps = r.choice([[0, 1], [0, 10, 20], [5], [65535, 32768, 32767, 0], [1, 2, 3]])
    ws = r.choice([[0], [0, 1], [10, 60, 30], [65535, 32768, 0, 1], [5, 5, 5, 0]])
    c["srv"] = [dict(p=r.choice(ps), w=r.choice(ws), port=r.choice([5222, 5222, 5269, 443, 1, 65535]), t=r.choice(names)) for _ in range(n)]
    i = r.randrange(1000)
    for h in names:
        a = []
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            a.append(ipn(r, k, i))
            i += 1
        c["hosts"].append(dict(h=h, a=a))
    if r.random() < 0.03:
        c["so"] = r.choice([1, -1])
    good = r.choice([0, 0.1, 0.3, 1])
    fates = {}
    ends = [x["port"] for x in c["srv"]] + [c["port"], 5222, 5223, 5347]
    for x in c["hosts"]:
        for ip in x["a"]:
            for p in set(ends):
                if p and len(fates) < 100:
                    fates[(ip, p)] = r.choice(FATES[:2]) if r.random() < good else r.choice(BAD)
    return c, fates


def play(h, job):
    r = random.Random("disco-%s" % (job,))
    d = Disco(h, r)
    for i in range(r.choice([1, 1, 2, 3])):
        k = 0 if r.random() < 0.8 else 1
        c, fates = draw(r, k)
        d.s.c("n.fate", "*", "refuse")
        # the table of fates is limited
        used = [(ip, p) for (ip, p) in fates]
        fates = {u: fates[u] for u in used[:100]}
        c = dict(c)
        hs = [dict(x) for x in c["hosts"]]
        c["so"] = 1 if c["so"] else 0
        c["hosts"] = hs
        if d.dial(k, c, fates, job) and r.random() < 0.1:
            x = d.s.c("k.client", k, None, 0, 0)       # refused: it is busy
        d.wait(k)
    return {"tr": compact(d.s.tr)}


def replay(h, job):
    """a configuration of ModelDisco.tla"""
    cfg = job[1]
    r = random.Random(repr(job))
    d = Disco(h, r)
    srv = [dict(p=x["p"] * r.choice([1, 7]), w=x["w"] * 3, port=x["port"], t=x["t"] + ".example.org") for x in cfg["srv"]]
    p1 = r.choice([1, 300, 65535])
    for x, y in zip(cfg["srv"], srv):
        y["p"] = x["p"] * p1
    f = cfg["f"]
    f = f if isinstance(f, (list, tuple)) else [f[i] for i in (1, 2, 3)]
    c = dict(kind=r.choice(["client", "client", "raw"]), lssl=0, host="-", port=0, dom="h1.example.org", srv=srv, hosts=[], so=0)
    fates = {}
    for i in range(3):
        a = []
        for j, x in enumerate(f[i]):
            ip = "10.1.%d.%d" % (i, j + 1)
            a.append(ip)
            for y in [5222] + [y["port"] for y in srv]:
                fates[(ip, y)] = {"accept": r.choice(["accept", "now"]), "refuse": r.choice(["refuse", "unreach"]),
                                  "late": r.choice(["late", "latereset"]), "hang": "hang"}[x]
        c["hosts"].append(dict(h="h%d.example.org" % (i + 1), a=a))
    d.dial(0, c, fates, 0)
    d.wait(0)
    return {"tr": compact(d.s.tr)}


def run(ck):
    r = ck.model("ModelDisco", "INIT Init\nNEXT Next\nINVARIANTS Sound Outcome Export\nCONSTANTS U=1 MaxR=2 Exp=TRUE\n")
    pr = [tlc.parse_value(l)[1] for l in tlc.tagged(r, "PROG")]
    pr.sort(key=repr)
    if not ck.quick:
        ck.model("ModelDisco", "INIT Init\nNEXT Next\nINVARIANTS Sound Outcome\nCONSTANTS U=1 MaxR=3 Exp=FALSE\n", name="ModelDisco3", timeout=3000)
    else:
        pr = ck.rng.sample(pr, 1500)
    ck.cov["exported_behaviours"] = {"ModelDisco": len(pr)}
    cs = traces.run(ck, "CasesDisco", [("prog", p) for p in pr], replay, name="DiscoProgs", consts="CONSTANT U = 1000\n")
    n = 1500 if ck.quick else 60000
    cs += traces.run(ck, "CasesDisco", ["C14-%d-%d" % (ck.seed, i) for i in range(n)], play, consts="CONSTANT U = 1000\n")
    ok = [c for c in cs if c]
    ev = [e for c in ok for e in c["tr"]]
    ck.cov["attempts"] = sum(1 for e in ev if e["e"] == "dial")
    ck.cov["failed_at_once"] = sum(1 for e in ev if e["e"] == "dialed" and e["rc"])
    ck.cov["endpoints"] = {f: sum(1 for e in ev if e["e"] == "connect" and e["fate"] == f) for f in FATES}
    ck.samples += [c["tr"][:40] for c in ok[:1]]

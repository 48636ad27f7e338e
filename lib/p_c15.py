import itertools
import pure, vh, tlc


def enc_plain(labels):
    return b"".join(bytes([len(l)]) + l for l in labels) + b"\0"


class Msg:
    """builder with RFC 1035 compression"""

    def __init__(self, rng, compress):
        self.b = bytearray()
        self.rng, self.compress = rng, compress
        self.offs = {}

    def name(self, labels):
        labels = tuple(labels)
        for i in range(len(labels) + 1):
            suf = labels[i:]
            o = self.offs.get(suf)
            if o is not None and o < 0x4000 and self.rng.random() < self.compress:
                self.b += bytes([0xC0 | o >> 8, o & 255])
                return
            if i < len(labels):
                self.offs.setdefault(suf, len(self.b))
                self.b += bytes([len(labels[i])]) + labels[i]
        if self.compress and self.rng.random() < .3:
            self.offs.setdefault((), len(self.b))
        self.b += b"\0"

    def u16(self, *v):
        for x in v:
            self.b += bytes([x >> 8 & 255, x & 255])

    def rr(self, owner, typ, cls, ttl, fill):
        self.name(owner)
        self.u16(typ, cls, ttl >> 16, ttl)
        at = len(self.b)
        self.u16(0)
        fill(self)
        n = len(self.b) - at - 2
        self.b[at:at + 2] = bytes([n >> 8, n & 255])


LAB = [b"a", b"xmpp", b"example", b"com", b"org", b"x" * 63, b"y" * 30, b"_xmpp-client", b"_tcp", b"\xff\x80", b"A-b", b"c1", b"w.w"]


def rname(rng, big=False):
    if big:
        r, tot = [], 1
        while True:
            l = bytes([97 + rng.randrange(26)]) * rng.randrange(1, 64)
            if tot + len(l) + 1 > rng.choice([255, 255, 254, 253, 200]):
                left = 255 - tot - 1
                if left > 0 and rng.random() < .7:
                    r.append(b"z" * min(63, left))
                return r
            r.append(l)
            tot += len(l) + 1
    return [rng.choice(LAB) for _ in range(rng.randrange(0, 5))]


def gen(rng, kind=None):
    m = Msg(rng, rng.choice([0, .5, 1, 1]))
    q = [b"_xmpp-client", b"_tcp"] + (rname(rng) or [b"d"])
    nq = rng.choice([1, 1, 1, 0, 2])
    recs = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 12])):
        recs.append(rng.choices(["srv", "a", "aaaa", "cname", "srvch", "txt", "empty", "opt"], [10, 1, 1, 1.5, .7, 1, .7, .4])[0])
    rc = 0 if rng.random() < .95 else rng.randrange(16)
    m.u16(rng.randrange(65536), (0x8000 if rng.random() < .97 else 0) | rng.randrange(128) << 8 | (rng.randrange(8) << 4) | rc,
          nq, len(recs), 0, 0)
    for _ in range(nq):
        m.name(q)
        m.u16(33, 1)
    pool = [rname(rng, rng.random() < .2) for _ in range(3)]
    prios = [rng.randrange(65536), 0, 1, 5, 65535, 256]
    for k in recs:
        o = q if rng.random() < .8 else rname(rng)
        if k in ("srv", "srvch"):
            t = rng.choice(pool) if rng.random() < .6 else rname(rng, rng.random() < .2)

            def f(m, t=t):
                m.u16(rng.choice(prios), rng.choice(prios), rng.choice([5222, 0, 65535, 1, rng.randrange(65536)]))
                m.name(t)
            m.rr(o, 33, 1 if k == "srv" else rng.choice([3, 255, 0, 257]), rng.randrange(1 << 31), f)
        elif k == "cname":
            t = rng.choice(pool)
            m.rr(o, 5, 1, 7, lambda m: m.name(t))
        else:
            d = {"a": rng.randbytes(4), "aaaa": rng.randbytes(16), "txt": rng.randbytes(rng.randrange(0, 40)), "empty": b"", "opt": b""}[k]
            def g(m, d=d):
                m.b += d
            m.rr(o, {"a": 1, "aaaa": 28, "txt": 16, "empty": rng.choice([10, 289, 8225]), "opt": 41}[k], 1, 1, g)
    return bytes(m.b)


def run(ck):
    rng = ck.rng
    ck.model("ModelDns", "CONSTANTS Vals = {0, 1, 2, 97, 192, 193, 64}\nN = %d\nMax = 3\nINIT Init\nNEXT Next\n"
             "INVARIANTS Bounded Agree Backwards\n" % (5 if ck.quick else 6))
    msgs = []
    base = [gen(rng) for _ in range(700 if ck.quick else 9000)]
    msgs += base
    # fixed shapes at the edges
    H = lambda q, a: bytes([1, 2, 0x80, 0, q >> 8, q & 255, a >> 8, a & 255, 0, 0, 0, 0])
    Q = enc_plain([b"_x", b"_tcp", b"d"]) + b"\0\x21\0\1"
    SRV = lambda t, p=1, w=2, port=5222: b"\xc0\x0c\0\x21\0\1\0\0\0\1" + bytes([(len(t) + 6) >> 8, (len(t) + 6) & 255]) + bytes([p >> 8, p & 255, w >> 8, w & 255, port >> 8, port & 255]) + t
    qo = 12 + len(Q) - 5
    root = 12 + len(Q) - 5
    for t in (b"\0", b"\1a\0", b"\1a" + bytes([0xC0, root]), bytes([0xC0, root]), bytes([0xC0, 12]), b"\3www" + bytes([0xC0, 12]),
              bytes([63]) + b"k" * 63 + b"\0", enc_plain([b"q" * 63] * 3 + [b"r" * 61]), enc_plain([b"q" * 63] * 3 + [b"r" * 62]),
              enc_plain([b"q" * 63] * 4), enc_plain([b"q" * 63] * 5), enc_plain([b"a"] * 127), enc_plain([b"a"] * 126), enc_plain([b"a"] * 128), b"\1\0\0", b"\2a\0\0"):
        for more in (b"", SRV(b"\1b\0", 0, 9), b"\xc0\x0c\0\1\0\1\0\0\0\1\0\4abcd", b"\xc0\x0c\0\x10\0\1\0\0\0\1\0\0", b"\0\0\x29\0\1\0\0\0\0\0\0", b"\xc0\x0c\0\5\0\1\0\0\0\1\0\2\xc0\x0c"):
            msgs.append(H(1, 1 + bool(more)) + Q + SRV(t) + more)
    # weights/priorities with the high bit, ties, many records
    for vals in itertools.product([0, 1, 255, 256, 32768, 65535], repeat=2):
        msgs.append(H(1, 3) + Q + SRV(b"\1a\0", vals[0], vals[1], 1) + SRV(b"\1b\0", vals[1], vals[0], 2) + SRV(b"\1c\0", vals[0], 7, 3))
    for _ in range(60):
        n = rng.randrange(2, 30)
        msgs.append(H(1, n) + Q + b"".join(SRV(b"\1" + bytes([97 + i % 26]) + b"\0", rng.randrange(3), rng.randrange(4), i) for i in range(n)))
    # pointer chains, forward and self pointers, deep chains
    for depth in (1, 2, 10, 60):
        pad = b"".join([b"\1" + bytes([97 + i % 26]) + (b"\0" if i == 0 else bytes([0xC0 | (100 + 4 * (i - 1) - (0 if i > 1 else 0)) >> 8, (100 + 4 * (i - 1)) & 255])) + (b"\0" if i == 0 else b"") for i in range(depth)])
        filler = b"\0" * (100 - 12 - len(Q) - 12)
        msgs.append(H(1, 2) + Q + b"\xc0\x0c\0\x10\0\1\0\0\0\1" + bytes([(len(filler) + len(pad)) >> 8, (len(filler) + len(pad)) & 255]) + filler + pad +
                    SRV(bytes([0xC0 | (100 + 4 * (depth - 1)) >> 8, (100 + 4 * (depth - 1)) & 255])))
    # large offsets (pointers beyond 255 and up to 14 bits)
    for off in (255, 256, 1000, 0x3fff - 2, 0x3fff, 0x4000):
        fill = off - 12 - len(Q) - 12
        if fill < 0:
            continue
        msgs.append(H(1, 2) + Q + b"\xc0\x0c\0\x10\0\1\0\0\0\1" + bytes([(fill + 3) >> 8, (fill + 3) & 255]) + b"\0" * fill + b"\1z\0" + SRV(bytes([0xC0 | (off >> 8 & 63), off & 255])))
    # all truncations and byte edits of some good messages
    good = sorted([m for m in base if 40 < len(m) < 160], key=len)
    for m in rng.sample(good, min(len(good), 6 if ck.quick else 60)):
        msgs += [m[:k] for k in range(len(m))]
        for pos in range(len(m)):
            for v in ({0, 1, 63, 64, 128, 192, 255, (m[pos] + 1) & 255, (m[pos] - 1) & 255} if not ck.quick else {0, 255, 192, (m[pos] + 1) & 255, (m[pos] - 1) & 255}):
                msgs.append(m[:pos] + bytes([v]) + m[pos + 1:])
    for _ in range(2500 if ck.quick else 60000):
        m = bytearray(rng.choice(base))
        for _ in range(rng.randrange(1, 4)):
            op = rng.randrange(5)
            if not m:
                break
            p = rng.randrange(len(m))
            if op == 0:
                m[p] = rng.choice([0, 1, 63, 64, 191, 192, 193, 255, rng.randrange(256)])
            elif op == 1 and p + 1 < len(m):
                m[p:p + 2] = bytes([0xC0 | rng.randrange(2), rng.randrange(256)])
            elif op == 2:
                del m[p:p + rng.randrange(1, 4)]
            elif op == 3:
                m[p:p] = rng.randbytes(rng.randrange(1, 4))
            elif op == 4 and len(m) > 8:
                m[rng.randrange(4, 8)] = rng.choice([0, 1, 2, 255, rng.randrange(256)])
        msgs.append(bytes(m))
    for _ in range(300 if ck.quick else 5000):
        msgs.append(bytes([0, 0, 0x80, 0, 0, rng.randrange(3), 0, rng.randrange(5), 0, 0, 0, 0]) + rng.randbytes(rng.randrange(0, 60)))
    cmds = ["srv " + vh.hx(m) for m in msgs]

    def case(c, ev, r):
        m = list(bytes.fromhex(c.split()[1][1:]))
        return {"msg": m, "found": r["found"], "rr": [{"p": x[0], "w": x[1], "port": x[2], "len": x[3], "t": list(bytes.fromhex(x[4]))} for x in r["rr"]]}

    pure.check(ck, "CasesDns", cmds, case)
    out = open(ck.work + "/tlc_CasesDns/out.txt").read()
    wf = out.count('<<"WF"')
    ck.cov.update(messages=len(msgs), well_formed=wf)
    if wf < 300:
        raise tlc.TlcError("vacuous: only %d well-formed messages" % wf)

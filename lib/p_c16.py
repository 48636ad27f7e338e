"""C16: the persisted state of stream management (spec/SmBlob.tla, spec/Sm.tla)."""
import os, random, struct
import certs, core, p_c04, p_c06, pure, sim, tlc, traces

u32 = lambda n: struct.pack(">I", n & 0xffffffff)


def fld(t, n):
    return bytes([t]) + u32(n)


def txt(d):
    return fld(0x7a, len(d)) + d


def write(cnt, hin, id, q, un):
    return (b"\x1a\0\0\0\0" + fld(0x1a, cnt) + fld(0x1a, hin) + txt(id) + fld(0x9a, len(q)) + b"".join(txt(x) for x in q)
            + fld(0xba, len(un)) + b"".join(fld(0x1a, n) + txt(x) for n, x in un))


def rtext(r, k):
    y = r.random()
    if y < 0.6:
        return b"<message id='%d'>%s</message>" % (k, b"b" * r.choice([0, 1, 20, 200]))
    if y < 0.7:
        return bytes(r.choice([0x1a, 0x7a, 0x9a, 0xba, 1, 255, 60]) for _ in range(r.randint(1, 12)))
    if y < 0.75:
        return b""
    if y < 0.78:
        return b"x" * r.choice([255, 256, 257, 1500, 5000])
    if y < 0.8:
        return bytes(r.randrange(256) for _ in range(r.randint(1, 9)))
    return b"<iq id='%d'/>" % k


def state(r):
    n = r.choice([0, 0, 1, 1, 2, 3, 8])
    m = r.choice([0, 0, 1, 1, 2, 3, 8])
    cnt = r.choice([0, 1, m, 255, 256, 65535, 65536, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, r.randrange(1 << 32)])
    hin = r.choice([0, 1, 2, 255, 256, 65536, (1 << 31), (1 << 32) - 1, r.randrange(1 << 32)])
    id = r.choice([b"x", b"some-id", b"", b"a" * 300, "é'\"<&".encode(), bytes(r.randrange(1, 256) for _ in range(r.randint(1, 40)))])
    if r.random() < 0.02:
        id = b"a\0b"
    un = [((cnt - m + i) if r.random() < 0.9 else r.randrange(1 << 32), rtext(r, i)) for i in range(m)]
    return write(cnt, hin, id, [rtext(r, i + 100) for i in range(n)], [(a & 0xffffffff, b) for a, b in un])


def fields(b):
    """positions of the type bytes of a well-formed state"""
    p, out = 0, []
    while p < len(b):
        out.append(p)
        t = b[p]
        n = int.from_bytes(b[p + 1:p + 5], "big")
        p += 5 + (n if t == 0x7a else 0)
    return out


def mutate(r, b):
    y = r.random()
    f = fields(b)
    if y < 0.2:
        return b[:r.randrange(len(b))]
    if y < 0.28:
        return b + bytes(r.choice([0, 0x1a, 0x7a, 0x9a, 0xba, 255]) for _ in range(r.choice([1, 1, 2, 5, 30])))
    p = r.choice(f)
    a = bytearray(b)
    if y < 0.42:
        a[p] = r.choice([0, 0x1a, 0x7a, 0x9a, 0xba, 0x5a, 0xfa, 255, a[p] ^ 1, a[p] ^ 0x80])
        return bytes(a)
    if y < 0.62:
        n = int.from_bytes(b[p + 1:p + 5], "big")
        rest = len(b) - p - 5
        n = r.choice([n + 1, n - 1, n + 5, 0, rest, rest + 1, rest - 1, len(b), 0xffffffff, 0x7fffffff, 0x80000000, 0xfffffffb, 0xfffffffa, 256, 65536, 1 << 24])
        a[p + 1:p + 5] = u32(n)
        return bytes(a)
    if y < 0.7:
        a[r.randrange(5)] = r.randrange(256)
        return bytes(a)
    if y < 0.78:
        a[r.randrange(len(a))] = r.randrange(256)
        return bytes(a)
    if y < 0.85:
        del a[r.randrange(len(a))]
        return bytes(a)
    if y < 0.9:
        a.insert(r.randrange(len(a) + 1), r.randrange(256))
        return bytes(a)
    if y < 0.95:      # a field taken out or doubled
        q = f[f.index(p) + 1] if p != f[-1] else len(b)
        return b[:p] + b[q:] if r.random() < 0.5 else b[:q] + b[p:q] + b[q:]
    return bytes(r.choice([0, 0, 1, 0x1a, 0x7a, 0x9a, 0xba, 60]) for _ in range(r.choice([0, 1, 5, 29, 30, 31, 60])))


def blobs(evs):
    return [list(bytes.fromhex(e["d"])) if e["d"] else [-1] for e in evs if e["ev"] == "sm"]


def use(h, job):
    """a blob on a fresh connection and what can be seen of it"""
    if isinstance(job, tuple):
        r = random.Random("blob-%s" % (job[0],))
        b = job[1]
    else:
        r = random.Random("blob-%s" % (job,))
        b = state(r)
        if r.random() < 0.6:
            b = mutate(r, b)
            if r.random() < 0.1:
                b = mutate(r, b) if b and b[0] == 0x1a and len(b) > 30 and wf(b) else b
    s = sim.Sim(h)
    mark = []

    def asked(ev):
        if ev.get("ev") == "cb" and ev.get("e") == "connect":
            for l in s.links.values():
                l.sp = p_c06.RSplit()
            mark.append(len(s.tr))
        return 1
    s.ask_fn = asked
    sim.client(s, 0, flags=1, connect=False, interactive=1)
    s.c("k.smcb", 0, 1)
    rc = int(s.c("k.restore", 0, b)["rc"] == 0)
    ops = []

    def op(o, *a, **kw):
        ev, x = h.cmd(" ".join(map(str, a))) if a else ([], None)
        ops.append(dict(op=o, blobs=blobs(ev), n=s.c("k.qlen", 0)["n"], **kw))
        return x
    for _ in range(r.randint(0, 6)):
        y = r.random()
        if y < 0.6:
            w = r.choice([1, 0])
            x = op("drop", "k.drop", 0, -1 if w else -2, w=w)
            ops[-1]["v"] = [-1] if x["v"] is None else list(bytes.fromhex(x["v"]))
        elif y < 0.8:
            op("qlen")
        else:
            b2 = state(r)
            if r.random() < 0.4:
                b2 = mutate(r, b2)
            ops.append(dict(op="again", b=list(b2), blobs=[], rc=int(s.c("k.restore", 0, b2)["rc"] == 0), n=s.c("k.qlen", 0)["n"]))
    if r.random() < 0.5:
        sv = sim.Server(pre=["m:PLAIN"], post=["bind"])
        d = sim.dial(s, 0)
        if d["rc"] == 0:
            for _ in range(60):
                s.settle(sv, n=3)
                if s.pred[0][2] or s.pred[0][3]:
                    break
        up = int(d["rc"] == 0 and s.pred[0][2])
        x = b"<z/>"
        if up:
            s.c("k.sendraw", 0, x)
            for _ in range(3):
                s.run(0)
        out = b"".join(e["d"] for e in s.tr[mark[0] if mark else len(s.tr):] if e["e"] == "wire")
        ops.append(dict(op="up", blobs=[], n=0, c=up, d=list(out), x=list(x)))
    if r.random() < 0.5:
        s.c("k.release", 0)
    return dict(b=list(b), rc=rc, ops=ops, tr=[])


def wf(b):
    try:
        return fields(b)[-1] < len(b)
    except IndexError:
        return False


def sessions(h, job):
    """the same sessions as C04, in which the application is restarted with the last state it got"""
    r = random.Random("persist-%s" % (job,))
    g = p_c04.Logical(h, r, blobs=True)
    g.persist = True
    p_c04.scenario(g, r)
    return {"tr": p_c04.compact(g.s.tr), "raw": [e["d"] for e in g.s.tr if e["e"] == "sm" and e["d"]][-3:]}


def run(ck):
    certs.basic(os.path.join(ck.work, "certs"))
    p_c04.CERTS[0] = os.path.join(ck.work, "certs")
    n = 2500 if ck.quick else 100000
    m = 500 if ck.quick else 12000
    ck.model("ModelSmBlob", "INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTANTS Texts <- TextsM Ns <- NsM Vals={0,1,2,5,26,122,154,186,255} MaxQ=%d MaxU=%d\n"
             % ((1, 1) if ck.quick else (2, 2)), timeout=3000)
    cs = traces.run(ck, "CasesSm", ["%s-%d-%d" % (ck.prop, ck.seed, i) for i in range(m)], sessions, name="sessions",
                    consts="CONSTANT Rules = {\"C16\"}\n")
    native = [bytes.fromhex(b) for c in cs if c for b in c["raw"]]
    r = ck.rng
    r.shuffle(native)
    jobs = ["C16-%d-%d" % (ck.seed, i) for i in range(n)]
    jobs += [("n%d-%d" % (ck.seed, i), b if i % 2 else mutate(r, b)) for i, b in enumerate(native[:n // 3]) if len(b) < 20000]
    # every way to cut a state short, and every byte of it changed
    b = write(3, 2, b"id", [b"<a/>", b""], [(1, b"<b/>"), (2, b"<c>d</c>")])
    jobs += [("cut%d" % i, b[:i]) for i in range(len(b))]
    for i in range(len(b)):
        for v in {0, 1, 2, 4, 5, 8, 0x1a, 0x7a, 0x9a, 0xba, 0xff, b[i] ^ 1, (b[i] + 1) & 255} - {b[i]}:
            if not ck.quick or v in (0, 0x7a, 0xff, b[i] ^ 1, (b[i] + 1) & 255):
                jobs.append(("set%d-%d" % (i, v), b[:i] + bytes([v]) + b[i + 1:]))
    res = core.pmap(ck.exe, use, jobs)
    sus, cases, where = {}, [], []
    for k, x in enumerate(res):
        if x[0] == "died":
            sus[k] = "process died: %s %s" % (x[1], x[2])
        else:
            cases.append(x[1])
            where.append(k)
    for j, why in pure.judge(ck, "CasesSmBlob", cases).items():
        sus[where[j]] = why
    import vh
    h = vh.VH(ck.exe)
    for k in sorted(sus)[:12]:
        if len(ck.violations) >= 5:
            break
        h.start()
        try:
            c = core.guard(use)(h, jobs[k])
            script = list(h.script)
            rj = pure.judge(ck, "CasesSmBlob", [c], name="confirm")
            if rj:
                ck.violation("%s: %s" % (rj[0], bytes(c["b"])[:200]), {"reason": rj[0], "case": c, "commands": script})
        except vh.Died as d:
            ck.violation("process died: %s %s" % (d.why, d.detail[:300]), {"job": repr(jobs[k])[:2000], "commands": h.script[:500]})
    h.close()
    ck.cov["blobs"] = len(jobs)
    ck.cov["accepted"] = sum(c["rc"] for c in cases)
    ck.cov["native_blobs"] = len(native)
    ck.cov["restores_in_sessions"] = sum(1 for c in cs if c for e in c["tr"] if e["e"] == "restore")
    ck.samples += [dict(b=bytes(c["b"][:120]).decode("latin1"), rc=c["rc"], ops=[o["op"] for o in c["ops"]]) for c in cases[:4]]

"""C09: stanza serialisation (spec/Stanza.tla over spec/Xml.tla)."""
import random
import core, pure, stz, vh, tlc


def item(h, seed):
    g = stz.Gen(random.Random(seed[0]), seed[1])
    h.reset()
    h.cmd("ctx 0 0")
    h.cmd("nopred")
    ops = stz.play(h, g.cmds)
    ev, r = h.cmd("ctxfree 0")
    leak = [e for e in ev if e["ev"] in ("leak", "badfree")]
    return ops, [c for c, _ in g.cmds], leak


def wide(r):
    """rendering sizes around the library's internal buffer limit"""
    out = []
    for base in list(range(1005, 1045)) + [2040, 2047, 2048, 2049, 4096, 5000]:
        for form in range(4):
            c = []
            if form == 0:
                c = [("s.new 0 0", dict(op="new", i=0)), ("s.text 0 %s" % vh.hx(b"a" * base), dict(op="text", i=0, v=b"a" * base))]
            else:
                c = [("s.new 0 0", dict(op="new", i=0)), ("s.name 0 %s" % vh.hx(b"m"), dict(op="name", i=0, v=b"m"))]
                n = base - (3 + 6 if form == 1 else 0)
                if form == 1:
                    v = b"b" * (base - 10)
                    c += [("s.attr 0 %s %s" % (vh.hx(b"k"), vh.hx(v)), dict(op="attr", i=0, k=b"k", v=v))]
                elif form == 2:
                    v = b"&" * 20 + b"c" * (base - 120)
                    c += [("s.new 1 0", dict(op="new", i=1)), ("s.text 1 %s" % vh.hx(v), dict(op="text", i=1, v=v)),
                          ("s.add 0 1 0", dict(op="add", i=0, j=1, mode=0))]
                else:
                    for q in range(6):
                        v = b"d" * (base // 6 - 10)
                        c += [("s.new 1 0", dict(op="new", i=1)), ("s.name 1 %s" % vh.hx(b"x"), dict(op="name", i=1, v=b"x")),
                              ("s.new 2 0", dict(op="new", i=2)), ("s.text 2 %s" % vh.hx(v), dict(op="text", i=2, v=v)),
                              ("s.add 1 2 0", dict(op="add", i=1, j=2, mode=0)), ("s.add 0 1 0", dict(op="add", i=0, j=1, mode=0))]
            c += [("s.render 0", dict(op="render", i=0)), ("s.release 0", dict(op="release", i=0))]
            out.append(c)
    return out


def item2(h, cmds):
    h.reset()
    h.cmd("ctx 0 0")
    h.cmd("nopred")
    ops = stz.play(h, cmds)
    ev, r = h.cmd("ctxfree 0")
    return ops, [c for c, _ in cmds], [e for e in ev if e["ev"] in ("leak", "badfree")]


def run(ck, prop="C09"):
    r = ck.rng
    ck.model("ModelStanza", "INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTANT MaxOps = %d\n" % (4 if ck.quick else 5), workers=8)
    n = 900 if ck.quick else 12000
    jobs = [("g", (ck.seed * 1000003 + i, r.choice([10, 25, 40, 60]))) for i in range(n)] + [("w", c) for c in wide(r)]
    play(ck, jobs)


def call(h, j):
    return item(h, j[1]) if j[0] == "g" else item2(h, j[1])


def play(ck, jobs):
    res = core.pmap(ck.exe, call, jobs)
    cases, where, sus = [], [], {}
    for k, x in enumerate(res):
        if x[0] == "died":
            sus[k] = "process died: %s %s" % (x[1], x[2])
        else:
            if x[1][2]:
                sus[k] = "blocks not returned to the allocator"
            cases.append({"ops": x[1][0]})
            where.append(k)
    for j, why in pure.judge(ck, "CasesStanza", cases).items():
        sus.setdefault(where[j], why)
    if sus:
        h = vh.VH(ck.exe)
        for k in sorted(sus, key=lambda k: ("not run" in sus[k], k))[:20]:
            if len(ck.violations) >= 5:
                break
            try:
                ops, cmds, leak = core.guard(call)(h, jobs[k])
                rj = pure.judge(ck, "CasesStanza", [{"ops": ops}], name="confirm")
                if rj or leak:
                    p = ck.work + "/x"
                    at = judge_at(ck, ops)
                    ck.violation("%s at step %s: %s" % (rj.get(0, "blocks not returned"), at, show(ops, at)),
                                 {"reason": rj.get(0, "leak"), "step": at, "commands": ["reset", "ctx 0 0"] + cmds})
            except vh.Died as d:
                ck.violation("process died: %s %s" % (d.why, d.detail[:300]), {"commands": h.script, "job": jobs[k]})
        h.close()
    ck.cov["programs"] = len(jobs)
    ck.cov["operations"] = sum(len(c["ops"]) for c in cases)
    ck.samples += [{"program": [o["op"] for o in c["ops"]][:40]} for c in cases[:2]]


def judge_at(ck, ops):
    p = ck.write_cases("at.ndjson", [{"ops": ops}])
    r = ck.tlc("CasesStanza", "INIT Init\nNEXT Next\n", env={"CASES": p}, name="at")
    v = [tlc.parse_value(x) for x in tlc.tagged(r, "REJECT")]
    return v[0][3] if v else None


def show(ops, at):
    if not at:
        return ""
    o = dict(ops[at - 1])
    if "s" in o:
        o["s"] = bytes(o["s"])
    return str(o)[:300]

"""Scenario -> recorded trace -> accepted or rejected by a TLA+ acceptor.

fn(vh, job) runs one scenario and returns a case dict (it must contain "tr")."""
import core, pure, vh

DEATHS = {"C01", "C12"}


def run(ck, module, jobs, fn, name=None, consts="", show=None, judge_kw=None, died=True):
    """-> list of cases (None where the process died)"""
    res = core.pmap(ck.exe, fn, jobs)
    cases, where, sus = [], [], {}
    for k, x in enumerate(res):
        if x[0] == "died":
            if died:
                sus[k] = "process died: %s %s" % (x[1], x[2])
        elif x[1] is not None:
            cases.append(x[1])
            where.append(k)
    for j, why in pure.accept(ck, module, cases, name=name, consts=consts, **(judge_kw or {})).items():
        sus.setdefault(where[j], why)
    if sus:
        n0 = 0
        h = vh.VH(ck.exe)
        for k in sorted(sus, key=lambda k: ("not run" in sus[k], k))[:12]:
            if len(ck.violations) >= 5:
                break
            h.start()
            try:
                c = core.guard(fn)(h, jobs[k])
                script = list(h.script)
                rj = pure.accept(ck, module, [c], name=(name or module) + "_confirm", consts=consts, **(judge_kw or {}))
                if rj:
                    why, at = rj[0]
                    ck.violation("%s at event %s: %s" % (why, at, str(c["tr"][max(0, at - 4):at])[:500]),
                                 {"reason": why, "event": at, "job": repr(jobs[k])[:2000], "trace": c["tr"][:400],
                                  "commands": script[:2000]})
                    n0 += 1
            except vh.Died as d:
                ck.violation("process died: %s %s" % (d.why, d.detail[:300]),
                             {"job": repr(jobs[k])[:2000], "commands": h.script[:2000]})
                n0 += 1
        h.close()
        if not n0:
            ck.notes.append("%d rejections did not repeat" % len(sus))
    ck.cov["scenarios"] = ck.cov.get("scenarios", 0) + len(jobs)
    ck.cov["events"] = ck.cov.get("events", 0) + sum(len(c["tr"]) for c in cases)
    return [x[1] if x[0] == "ok" else None for x in res]


def programs(ck, module, cfg, num, depth, tag="PROG", seed=None, timeout=120):
    """behaviours of a specification, exported by TLC in simulation mode"""
    import tlc
    r = ck.tlc(module, cfg, name=module + "_sim", count=False, timeout=timeout,
               simulate=["-simulate", "num=%d" % max(1, num // 4), "-depth", str(depth), "-seed", str(seed or ck.seed)], workers=1)
    out, seen = [], set()
    for l in tlc.tagged(r, tag):
        if l in seen:
            continue
        seen.add(l)
        out.append(l)
    if len(out) > num:
        out = ck.rng.sample(out, num)
    ck.cov.setdefault("exported_behaviours", {})[module] = len(out)
    return [tlc.parse_value(l)[1] for l in out]

"""Checks of pure functions: commands -> recorded results -> judged by a Cases*.tla module."""
import json, core, vh, tlc


def _batch(h, cmds):
    out = []
    h.reset()
    h.cmd("ctx 0 0")
    h.cmd("nopred")
    for c in cmds:
        if vh.hangs >= 8:
            out.append(("died", "not run", ""))
            continue
        try:
            ev, r = h.cmd(c)
            out.append((ev, r))
        except vh.Died as d:
            out.append(("died", d.why, d.detail))
            h.reset()
            h.cmd("ctx 0 0")
            h.cmd("nopred")
    return out


def run_cmds(ck, cmds, nproc=8):
    """execute commands in parallel harness processes, results in order"""
    n = max(1, min(400, (len(cmds) + nproc - 1) // nproc))
    batches = [cmds[i:i + n] for i in range(0, len(cmds), n)]
    res = []
    for r in core.pmap(ck.exe, _batch, batches, nproc, chunk=1):
        if r[0] == "died":
            raise RuntimeError("harness died outside a command: %s %s" % (r[1], r[2]))
        res += r[1]
    return res


def judge(ck, module, cases, name=None, consts="", env=None, **kw):
    """-> {index: reason} for rejected cases"""
    if not cases:
        return {}
    p = ck.write_cases((name or module) + ".ndjson", cases)
    e = {"CASES": p}
    e.update(env or {})
    r = ck.tlc(module, consts + "INIT Init\nNEXT Next\n", env=e, name=name or module, **kw)
    if r.distinct != len(cases) + 8:
        raise tlc.TlcError("%s evaluated %d of %d cases\n%s" % (module, r.distinct - 8, len(cases), r.out[-2000:]))
    ck.traces += len(cases)
    return {v[1] - 1: v[2] for v in (tlc.parse_value(x) for x in tlc.tagged(r, "REJECT"))}


def accept(ck, module, cases, name=None, consts="", env=None, limit=48000000, **kw):
    """trace acceptor (one TLC state per event) -> {index: (reason, event number)}"""
    out, i = {}, 0
    while i < len(cases):
        n, j = 0, i
        while j < len(cases) and (j == i or n < limit):
            n += len(json.dumps(cases[j]["tr"]))
            j += 1
        part = cases[i:j]
        p = ck.write_cases((name or module) + ".ndjson", part)
        e = {"CASES": p}
        e.update(env or {})
        r = ck.tlc(module, consts + "INIT Init\nNEXT Next\nVIEW View\n", env=e, name=name or module, **kw)
        rej = {v[1] - 1: (v[2], v[3]) for v in (tlc.parse_value(x) for x in tlc.tagged(r, "REJECT"))}
        want = sum(rej[k][1] + 1 if k in rej else len(c["tr"]) + 1 for k, c in enumerate(part))
        if r.distinct != want:
            raise tlc.TlcError("%s reached %d of %d trace positions\n%s" % (module, r.distinct, want, r.out[-2000:]))
        ck.traces += len(part)
        out.update({i + k: v for k, v in rej.items()})
        i = j
    return out


def check(ck, module, cmds, to_case, bad_events=("badfree",), show=None, name=None, **kw):
    """cmds: list of command lines; to_case(cmd, events, result) -> case record.
    Rejected or crashing commands are repeated in a fresh process before being reported."""
    res = run_cmds(ck, cmds)
    cases, idx = [], []
    suspects = {}
    for i, (c, r) in enumerate(zip(cmds, res)):
        if r[0] == "died":
            suspects[i] = "process died: %s %s" % (r[1], r[2])
            continue
        if any(e["ev"] in bad_events for e in r[0]):
            suspects[i] = "allocator misuse: %r" % [e for e in r[0] if e["ev"] in bad_events]
            continue
        cases.append(to_case(c, r[0], r[1]))
        idx.append(i)
    for j, why in judge(ck, module, cases, name=name, **kw).items():
        suspects[idx[j]] = why
    if suspects:
        ids = sorted(suspects, key=lambda k: ("not run" in suspects[k], k))[:40 if not any("hang" in w for w in suspects.values()) else 8]
        again = _confirm(ck, [cmds[i] for i in ids])
        c2, i2, conf = [], [], {}
        for i, r in zip(ids, again):
            if r[0] == "died":
                conf[i] = "process died: %s %s" % (r[1], r[2])
            elif any(e["ev"] in bad_events for e in r[0]):
                conf[i] = "allocator misuse"
            else:
                c2.append(to_case(cmds[i], r[0], r[1]))
                i2.append(i)
        for j, why in judge(ck, module, c2, name=(name or module) + "_confirm", **kw).items():
            conf[i2[j]] = why
        for i in sorted(conf):
            ck.violation("%s: %s -> %s" % (conf[i], (show or (lambda c: c))(cmds[i])[:300],
                                           str(res[i][1] if res[i][0] != "died" else "died")[:300]),
                         {"commands": ["reset", "ctx 0 0", cmds[i]], "reason": conf[i]})
        if not conf:
            ck.notes.append("%d rejections did not repeat" % len(ids))
    ck.samples += [{"cmd": cmds[i][:200], "result": str(res[i][1])[:200]} for i in range(0, len(cmds), max(1, len(cmds) // 3))][:3]
    return res


def _confirm(ck, cmds):
    h = vh.VH(ck.exe)
    try:
        return _batch(h, cmds)
    finally:
        h.close()

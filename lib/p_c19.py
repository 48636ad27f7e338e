import itertools
import pure, vh

AL = [b"a", b"@", b"/", b":", b"\xc3"]


def opt(s):
    return {"none": s is None, "v": list(s or b"")}


def run(ck):
    rng = ck.rng
    ck.model("ModelJid", "CONSTANTS Chars = {97, 64, 47}\nMaxLen = %d\nINIT Init\nNEXT Next\n"
             "INVARIANTS Agree Rebuild SplitJoin\n" % (6 if ck.quick else 9))
    strs = []
    for n in range(0, 6 if ck.quick else 8):
        strs += [b"".join(x) for x in itertools.product(AL[:3] if n > 4 else AL[:4], repeat=n)]
    pool = [b"a", b"b", b".", b"@", b"/", b" ", b"&", b"'", b'"', b":", b"<", b">", b"\xc3\xa9", b"\x7f", b"\xff", b"[::1]", b"A", b"\\20", b"?", b"%", b"\n"]
    for _ in range(3000 if ck.quick else 40000):
        strs.append(b"".join(rng.choice(pool) for _ in range(rng.randrange(0, 16))))
    for n in (1022, 1023, 1024, 2000, 4000):
        strs += [b"a" * n, b"a" * n + b"@d/r", b"a@" + b"d" * n + b"/r", b"a@d/" + b"r" * n]
    cmds = ["jid " + vh.hx(s) for s in strs]
    # building
    nodes = [None, b"", b"a", b"user.name", b"a b", b"\xc3\xa9", b"a\\40b", b"%", b"#", b"a;b", b"a=b", b"(x)", b"a?", b"a,b", b"*"] + \
        [b"x" + bytes([c]) + b"y" for c in b"\"&'/:<>@"] + [bytes([c]) for c in b"\"&'/:<>@"] + \
        [b"xyz" + bytes([c]) for c in b"\"&'/:<>@"] + [b"n" * k for k in (1022, 1023, 1024, 1025, 3000)] + \
        [b"n" * 1022 + bytes([c]) for c in b"\"&'/:<>@"]
    doms = [None, b"", b"d", b"ex.com", b"[::1]", b"d@e", b"d/e", b"\xc3\xa9.org"] + [b"d" * k for k in (1022, 1023, 1024, 2000)]
    ress = [None, b"", b"r", b"r/s", b"r@s", b"@", b"/", b"a@b/c@d", b"\xc3\xa9 <>&\"'"] + [b"r" * k for k in (1022, 1023, 1024, 2048)] + [b"/" * 1023, b"/" * 1024]
    big = lambda x: x is not None and len(x) > 100
    combos = [(n, d, r) for n in nodes for d in doms for r in ress
              if big(n) + big(d) + big(r) <= 1 or (big(n) and big(d) and big(r) and len(n) == len(d) + rng.randrange(2))]
    combos = [c for c in combos if not any(big(x) for x in c) or not ck.quick or rng.random() < .35 or
              sum(x in (None, b"", b"r", b"d", b"a") for x in c) >= 2]
    allb = [bytes([b]) for b in range(1, 256)]
    combos += [(b, b"d", None) for b in allb] + [(b"n" + b + b"m", b"d", b"r") for b in allb] + \
        [(None, b"x" + b, None) for b in allb] + [(b"n", b"d", b) for b in allb]
    for _ in range(1000 if ck.quick else 30000):
        combos.append((rng.choice([None, b"".join(rng.choice(pool) for _ in range(rng.randrange(0, 6)))]),
                       b"".join(rng.choice(pool) for _ in range(rng.randrange(0, 6))),
                       rng.choice([None, b"".join(rng.choice(pool) for _ in range(rng.randrange(0, 6)))])))
    cmds += ["jidnew %s %s %s" % (vh.hx(n), vh.hx(d), vh.hx(r)) for n, d, r in combos]

    def dec(a):
        return None if a == "-" else bytes.fromhex(a[1:])

    def case(c, ev, r):
        t = c.split()
        g = lambda k: opt(vh.unhex(r.get(k)))
        if t[0] == "jid":
            return {"op": "split", "in": list(dec(t[1])), "node": g("node"), "domain": g("domain"),
                    "resource": g("resource"), "bare": g("bare")}
        return {"op": "new", "n": opt(dec(t[1])), "d": opt(dec(t[2])), "r": opt(dec(t[3])), "jid": g("jid"),
                "node": g("node"), "domain": g("domain"), "resource": g("resource"), "bare": g("bare")}

    pure.check(ck, "CasesJid", cmds, case)
    ck.cov["strings_split"], ck.cov["jids_built"] = len(strs), len(combos)

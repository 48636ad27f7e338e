import pure, vh, tlc

ALGS = {"sha1": 64, "sha256": 64, "sha512": 128, "md5": 64}
VARIANTS = {"sha1": ["sha1", "sha1one", "pubsha1"], "sha256": ["sha256", "sha256one"],
            "sha512": ["sha512", "sha512one"], "md5": ["md5"]}


def splits(rng, n, B, k):
    """update-call sequences for a message of n bytes"""
    r = [[]]
    if n:
        r.append([1] * min(n, 300))
        r.append([0, n, 0])
    for cut in {1, B - 1, B, B + 1, n - 1, n - B, n // 2}:
        if 0 < cut < n:
            r.append([cut])
    if n > B:
        r.append([B] * (n // B))
        r.append([B - 1, B + 1])
        r.append([1, B])
        r.append([B // 2 - 1, B, B])
    while len(r) < k:
        s, left = [], n
        while left > 0 and len(s) < 40:
            x = rng.choice([rng.randrange(0, left + 1), rng.randrange(0, min(left, 2 * B) + 1), min(left, rng.choice([1, B - 1, B, B + 1, 55, 56, 63, 64, 111, 112]))])
            s.append(x)
            left -= x
        r.append(s)
    return r


def run(ck):
    rng = ck.rng
    cp = ck.javacp()
    jobs = []   # (alg, msg, [cmds])
    for alg, B in ALGS.items():
        lens = list(range(0, 2 * B + 12)) if ck.quick else list(range(0, 6 * B + 3))
        lens += [B * k + d for k in (3, 4, 8) for d in (-B // 8 - 1, -B // 8, -1, 0, 1)] if ck.quick else [1000, 4095, 4096, 4097]
        for n in lens:
            msg = rng.randbytes(n) if n % 5 else (b"\xff" * n if n % 2 else b"\x00" * n)
            cmds = []
            for v in VARIANTS[alg]:
                if v.endswith("one"):
                    cmds.append("digest %s %s 1" % (v, vh.hx(msg)))
                else:
                    for s in splits(rng, n, B, 9 if ck.quick else 24):
                        cmds.append(("digest %s %s 1 " % (v, vh.hx(msg)) + " ".join(map(str, s))).strip())
            jobs.append((alg, msg, cmds))
    # SCRAM key derivation: HMAC and PBKDF2 with keys below/at/above the block length
    keys = []
    for alg, name in (("sha1", "SCRAM-SHA-1"), ("sha256", "SCRAM-SHA-256"), ("sha512", "SCRAM-SHA-512")):
        B = ALGS[alg]
        for n in [0, 1, 8, B - 1, B, B + 1, 2 * B, 200] + ([] if ck.quick else list(range(2, 2 * B, 7))):
            for it in (1, 2, 3):
                if ck.quick and it > 1 and n not in (1, B, B + 1):
                    continue
                pw, salt, am = rng.randbytes(n), rng.randbytes(rng.randrange(1, 40)), rng.randbytes(rng.randrange(0, 3 * B))
                keys.append(("key", alg, pw, salt, it, am, "scramkey %s %s %s %d %s" % (name, vh.hx(pw), vh.hx(salt), it, vh.hx(am))))
        for it in (4096, 10000):
            pw, salt, am = rng.randbytes(12), rng.randbytes(16), rng.randbytes(150)
            keys.append(("fastkey", alg, pw, salt, it, am, "scramkey %s %s %s %d %s" % (name, vh.hx(pw), vh.hx(salt), it, vh.hx(am))))
    # bulk messages: the bit counter passes 2^32
    longs = []
    for alg in ("sha1", "sha256", "sha512", "md5", "pubsha1"):
        for mode in (0, 1):
            if ck.quick and mode == 1 and alg in ("pubsha1", "sha512"):
                continue
            longs.append((alg, 65536, 8192, 77 if mode else 13, mode))
        if not ck.quick and alg != "pubsha1":
            longs.append((alg, 65536, 65536, 5, 0))
    lcmds = ["digestlong %s %d %d %d %d" % x for x in longs]
    flat = [(j, c) for j, job in enumerate(jobs) for c in job[2]]
    import threading
    lres = []
    th = threading.Thread(target=lambda: lres.extend(pure.run_cmds(ck, lcmds, 8)))
    res = pure.run_cmds(ck, [c for _, c in flat])
    kres = pure.run_cmds(ck, [k[6] for k in keys])
    th.start()
    cases, back = [], []
    per = {}
    for (j, c), r in zip(flat, res):
        per.setdefault(j, []).append((c, r))
    for j, (alg, msg, _) in enumerate(jobs):
        outs, hexes, bad, died = set(), set(), 0, None
        for c, r in per[j]:
            if r[0] == "died":
                died = (c, r)
                continue
            r = r[1]
            outs.add(r["d"])
            if "one" in r:
                outs.add(r["one"])
                for k in ("str", "stra", "ones"):
                    hexes.add(r[k])
                bad += 0 if r["strnull"] else 1
        if died:
            ck.violation("process died in %s: %s %s" % (died[0][:80], died[1][1], died[1][2]), {"commands": ["reset", "ctx 0 0", died[0]]})
        cases.append({"kind": "msg", "alg": alg, "msg": list(msg), "outs": [list(bytes.fromhex(o)) for o in sorted(outs)],
                      "hexes": [list(bytes.fromhex(h)) for h in sorted(x for x in hexes if x)], "bad": bad})
        back.append([c for c, _ in per[j]])
    for (kind, alg, pw, salt, it, am, cmd), r in zip(keys, kres):
        if r[0] == "died":
            ck.violation("process died in scramkey: %s" % (r[2],), {"commands": [cmd]})
            continue
        r = r[1]
        h = lambda k: list(bytes.fromhex(r.get(k, "")))
        cases.append({"kind": kind, "alg": alg, "pw": list(pw), "salt": list(salt), "it": it, "msg": list(am),
                      "key": h("key"), "sig": h("sig"), "proof": h("proof")})
        back.append([cmd])
    for alg in ALGS:
        for n in (0, 3, 70, 130):
            cases.append({"kind": "self", "alg": alg, "msg": list(rng.randbytes(n)), "unit": 10 + n, "reps": 3, "tail": 7})
            back.append(["self"])
    th.join()
    for x, c, r in zip(longs, lcmds, lres):
        if r[0] == "died":
            ck.violation("process died in %s: %s" % (c, r[2]), {"commands": [c]})
            continue
        cases.append({"kind": "long", "alg": x[0].replace("pub", ""), "unit": x[1], "reps": x[2], "tail": x[3],
                      "out": list(bytes.fromhex(r[1]["d"]))})
        back.append([c])
    # spread the expensive cases over the lanes
    order = list(range(len(cases)))
    rng.shuffle(order)
    rej = pure.judge(ck, "CasesDigest", [cases[i] for i in order], javacp=cp)
    for j, why in rej.items():
        if why.startswith("SELF"):
            raise tlc.TlcError("specification self check failed: " + why)
        i = order[j]
        c = cases[i]
        ck.violation("%s: %s %s length %s" % (why, c["kind"], c["alg"], len(c.get("msg", []))),
                     {"commands": ["reset", "ctx 0 0"] + back[i][:40], "case": str(c)[:3000]})
    ck.traces += len(flat)
    ck.samples += [{"alg": cases[i]["alg"], "len": len(cases[i]["msg"]), "updates": back[i][-1][-60:]} for i in (5, 90, 200)]
    ck.cov.update(messages=len(jobs), update_sequences=len(flat), key_derivations=len(keys), bulk_messages=len(longs))

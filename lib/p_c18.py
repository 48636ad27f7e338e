import itertools
import pure, vh

CH = [b"A", b"Q", b"g", b"/", b"+", b"8", b"=", b"-", b"\n", b"\0"]


def run(ck):
    rng = ck.rng
    # design model: machine = function, roundtrip
    ck.model("ModelBase64", 'CONSTANTS Chars = {65, 81, 103, 61, 45}\nMaxLen = %d\nBytes = {0, 1, 15, 64, 170, 255}\n'
             'MaxBytes = 4\nINIT Init\nNEXT Next\nINVARIANTS MachineAgrees Canon RoundTrip\n' % (5 if ck.quick else 7))
    enc, dec = [], []
    # exhaustive short byte strings
    enc.append(b"")
    enc += [bytes([i]) for i in range(256)]
    b2 = [0, 1, 3, 4, 15, 16, 63, 64, 127, 128, 192, 255, 65, 90]
    for n in (2, 3, 4):
        s = b2 if n < 4 else b2[::3]
        enc += [bytes(x) for x in itertools.product(s, repeat=n)]
    for _ in range(1500 if ck.quick else 40000):
        enc.append(rng.randbytes(rng.randrange(1, 70)))
    for n in list(range(60, 140)) + [255, 256, 257, 1023, 1024, 1025] + ([] if ck.quick else [4095, 4096, 5000]):
        enc.append(rng.randbytes(n))
    # decoding: exhaustive over the critical alphabet
    dec.append(b"")
    for n in (1, 2, 3):
        dec += [b"".join(x) for x in itertools.product(CH, repeat=n)]
    dec += [b"".join(x) for x in itertools.product(CH, repeat=4)]
    small = [b"A", b"/", b"=", b"Q"]
    dec += [b"".join(x) for x in itertools.product(small, repeat=5)]
    if not ck.quick:
        dec += [b"".join(x) for x in itertools.product(small, repeat=6)]
        dec += [b"".join(x) for x in itertools.product(small, repeat=8)]
    else:
        dec += [b"".join(x) for x in itertools.product([b"Q", b"="], repeat=8)]
        dec += [b"".join(x) for x in itertools.product([b"A", b"=", b"-"], repeat=8)][::3]
    dec += [b"".join(x) for x in itertools.product([b"Q", b"="], repeat=12)]
    # every byte value at every position of a quartet
    for pos in range(8):
        for v in range(256):
            q = bytearray(b"QUJDREVG")
            q[pos] = v
            dec.append(bytes(q))
    import base64
    alpha = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    for _ in range(3000 if ck.quick else 60000):
        k = rng.random()
        s = bytearray(base64.b64encode(rng.randbytes(rng.randrange(0, 60))))
        for _ in range(0 if k < .3 else rng.randrange(1, 3)):
            op = rng.randrange(5)
            p = rng.randrange(len(s) + 1)
            if op == 0:
                s.insert(p, 61)
            elif op == 1 and s:
                s[min(p, len(s) - 1)] = rng.choice([61, 61, rng.choice(alpha), rng.randrange(256)])
            elif op == 2 and s:
                del s[min(p, len(s) - 1)]
            elif op == 3 and len(s) > 4:
                s[-rng.randrange(1, 5)] = rng.choice([61, rng.choice(alpha)])
            elif op == 4:
                s += base64.b64encode(rng.randbytes(rng.randrange(1, 6)))
        dec.append(bytes(s))
    cmds = ["b64enc " + vh.hx(x) for x in enc] + ["b64bin " + vh.hx(x) for x in dec] + ["b64str " + vh.hx(x) for x in dec]

    def case(c, ev, r):
        op, a = c.split()
        d = list(bytes.fromhex(a[1:]))
        if op == "b64enc":
            o = vh.unhex(r["s"])
            return {"op": "enc", "in": d, "null": o is None, "out": list(o or b""), "len": r["len"]}
        if op == "b64bin":
            o = vh.unhex(r.get("d"))
            return {"op": "bin", "in": d, "null": bool(r["null"]), "out": list(o or b""), "len": min(r["len"], 2**30)}
        o = vh.unhex(r["s"])
        return {"op": "str", "in": d, "null": o is None, "out": list(o or b""), "len": 0}

    pure.check(ck, "CasesBase64", cmds, case)
    ck.cov["encode_inputs"], ck.cov["decode_inputs"] = len(enc), 2 * len(dec)

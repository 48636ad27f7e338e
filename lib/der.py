"""X.509 certificates built byte by byte (P-256, deterministic), so that every field can be wrong."""
import base64, hashlib, hmac

P = 2**256 - 2**224 + 2**192 + 2**96 - 1
N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
A = P - 3
G = (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
     0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)


def _dbl(p):
    x, y, z = p
    if not y:
        return (0, 1, 0)
    s = 4 * x * y * y % P
    m = (3 * x * x + A * pow(z, 4, P)) % P
    x2 = (m * m - 2 * s) % P
    return (x2, (m * (s - x2) - 8 * pow(y, 4, P)) % P, 2 * y * z % P)


def _add(p, q):
    if not p[2]:
        return q
    if not q[2]:
        return p
    x1, y1, z1 = p
    x2, y2, z2 = q
    a, b = z1 * z1 % P, z2 * z2 % P
    u1, u2, s1, s2 = x1 * b % P, x2 * a % P, y1 * z2 * b % P, y2 * z1 * a % P
    if u1 == u2:
        return _dbl(p) if s1 == s2 else (0, 1, 0)
    h, r = (u2 - u1) % P, (s2 - s1) % P
    h2 = h * h % P
    h3 = h * h2 % P
    x3 = (r * r - h3 - 2 * u1 * h2) % P
    return (x3, (r * (u1 * h2 - x3) - s1 * h3) % P, h * z1 * z2 % P)


_tab = []


def mulg(k):
    if not _tab:
        q = (G[0], G[1], 1)
        for _ in range(256):
            _tab.append(q)
            q = _dbl(q)
    r = (0, 1, 0)
    for i in range(256):
        if k >> i & 1:
            r = _add(r, _tab[i])
    zi = pow(r[2], -1, P)
    return (r[0] * zi * zi % P, r[1] * pow(zi, 3, P) % P)


def tlv(t, *c):
    c = b"".join(c)
    n = len(c)
    l = bytes([n]) if n < 128 else (lambda b: bytes([0x80 | len(b)]) + b)(n.to_bytes((n.bit_length() + 7) // 8, "big"))
    return bytes([t]) + l + c


def seq(*c):
    return tlv(0x30, *c)


def integer(n):
    return tlv(2, n.to_bytes(n.bit_length() // 8 + 1, "big"))


def oid(s):
    a = [int(x) for x in s.split(".")]
    o = bytes([a[0] * 40 + a[1]])
    for x in a[2:]:
        b = bytes([x & 127])
        while x > 127:
            x >>= 7
            b = bytes([128 | x & 127]) + b
        o += b
    return tlv(6, o)


def bits(b):
    return tlv(3, b"\0" + b)


class Key:
    def __init__(self, name):
        self.d = int.from_bytes(hashlib.sha256(b"key " + name.encode()).digest(), "big") % (N - 1) + 1
        x, y = mulg(self.d)
        self.pt = b"\4" + x.to_bytes(32, "big") + y.to_bytes(32, "big")
        self.spki = seq(seq(oid("1.2.840.10045.2.1"), oid("1.2.840.10045.3.1.7")), bits(self.pt))

    def pem(self):
        return pem("EC PRIVATE KEY", seq(integer(1), tlv(4, self.d.to_bytes(32, "big")),
                                         tlv(0xa0, oid("1.2.840.10045.3.1.7")), tlv(0xa1, bits(self.pt))))

    def sign(self, m):
        z = int.from_bytes(hashlib.sha256(m).digest(), "big")
        k = int.from_bytes(hmac.new(self.d.to_bytes(32, "big"), m, hashlib.sha256).digest(), "big") % (N - 1) + 1
        r = mulg(k)[0] % N
        s = pow(k, -1, N) * (z + r * self.d) % N
        return seq(integer(r), integer(s))


_keys = {}


def key(name):
    if name not in _keys:
        _keys[name] = Key(name)
    return _keys[name]


def pem(kind, d):
    b = base64.b64encode(d).decode()
    return "-----BEGIN %s-----\n%s\n-----END %s-----\n" % (kind, "\n".join(b[i:i + 64] for i in range(0, len(b), 64)), kind)


def name(cns):
    return seq(*[tlv(0x31, seq(oid("2.5.4.3" if k == "CN" else "2.5.4.10"), tlv(0x0c, v))) for k, v in cns])


def namehash(cns):
    """the name of a file in a hashed certificate directory"""
    c = b"".join(tlv(0x31, seq(oid("2.5.4.3" if k == "CN" else "2.5.4.10"), tlv(0x0c, b" ".join(v.lower().split())))) for k, v in cns)
    return "%08x" % int.from_bytes(hashlib.sha1(c).digest()[:4], "little")


def gtime(t):
    return tlv(0x17, t.encode()) if len(t) == 13 else tlv(0x18, t.encode())


ECDSA = seq(oid("1.2.840.10045.4.3.2"))


def cert(subject, issuer, pub, signer, serial, start, end, ca=None, dns=(), others=(), exts=()):
    """subject/issuer: [("CN"|"O", bytes)]; pub/signer: Key; dns: dNSNames; others: GeneralNames in DER"""
    x = []
    if ca is not None:
        x.append(seq(oid("2.5.29.19"), tlv(1, b"\xff"), tlv(4, seq(*([tlv(1, b"\xff")] if ca else [])))))
    if dns or others:
        x.append(seq(oid("2.5.29.17"), tlv(4, seq(*([tlv(0x82, d) for d in dns] + list(others))))))
    x += exts
    tbs = seq(*([tlv(0xa0, integer(2))] if x else []), integer(serial), ECDSA, name(issuer), seq(gtime(start), gtime(end)),
              name(subject), pub.spki, *([tlv(0xa3, seq(*x))] if x else []))
    return seq(tbs, ECDSA, bits(signer.sign(tbs)))

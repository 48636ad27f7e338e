"""Certificates for the virtual servers, made with the openssl command line."""
import os, subprocess


def _run(d, *a):
    p = subprocess.run(["openssl"] + list(a), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError("openssl %s: %s" % (a, p.stdout.decode()[-500:]))


def make(d, name, cn="example.org", san=("DNS:example.org",), ca=None, isca=False, days=None, start=None, end=None, extra=()):
    """makes d/name.pem and d/name.key; ca: name of the issuer (None: self-signed)"""
    os.makedirs(d, exist_ok=True)
    key, pem = name + ".key", name + ".pem"
    _run(d, "genpkey", "-algorithm", "EC", "-pkeyopt", "ec_paramgen_curve:P-256", "-out", key)
    cnf = os.path.join(d, name + ".cnf")
    db = os.path.join(d, name + ".db")
    open(db, "w").close()
    open(db + ".attr", "w").write("unique_subject = no\n")
    open(os.path.join(d, name + ".ser"), "w").write("%016X\n" % (int.from_bytes(os.urandom(7), "big") | 1 << 56))
    ext = ["basicConstraints=critical,CA:%s" % ("TRUE" if isca else "FALSE"), "subjectKeyIdentifier=hash"]
    if san:
        ext.append("subjectAltName=@san")
    ext += list(extra)
    sanl = []
    n = {}
    for x in san or ():
        k, v = x.split(":", 1)
        n[k] = n.get(k, 0) + 1
        sanl.append("%s.%d=%s" % (k, n[k], v))
    with open(cnf, "w") as f:
        f.write("[req]\ndistinguished_name=dn\nprompt=no\nstring_mask=utf8only\n[dn]\nCN=%s\n"
                "[ca]\ndefault_ca=d\n[d]\ndatabase=%s\nserial=%s\nnew_certs_dir=%s\ndefault_md=sha256\npolicy=pol\n"
                "unique_subject=no\ncopy_extensions=none\nemail_in_dn=no\nrand_serial=yes\n[pol]\ncommonName=optional\n[ext]\n%s\n[san]\n%s\n"
                % (cn or "x", db, os.path.join(d, name + ".ser"), d, "\n".join(ext), "\n".join(sanl)))
    _run(d, "req", "-new", "-config", cnf, "-key", key, "-out", name + ".csr", "-utf8")
    a = ["ca", "-batch", "-notext", "-config", cnf, "-extensions", "ext", "-in", name + ".csr", "-out", pem,
         "-startdate", start or "20200101000000Z", "-enddate", end or "20491231000000Z", "-preserveDN"]
    if ca is None:
        a += ["-selfsign", "-keyfile", key]
    else:
        a += ["-cert", ca + ".pem", "-keyfile", ca + ".key"]
    _run(d, *a)
    return os.path.join(d, pem), os.path.join(d, key)


def basic(d):
    """a CA, a good server certificate and a client certificate"""
    make(d, "ca", "Test CA", None, None, True, extra=("keyUsage=critical,keyCertSign,cRLSign",))
    make(d, "good", "example.org", ("DNS:example.org",), "ca")
    make(d, "cli", "alice", ("otherName:1.3.6.1.5.5.7.8.5;UTF8:alice@example.org",), "ca")
    return d

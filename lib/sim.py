"""A scripted XMPP server at the far end of the virtual network, and the abstract trace of
what is observable at the library's boundary.

The trace (Sim.tr) is a list of dicts, in the order things happened:
  tx     an element (or stream header/footer) completed on the wire by the client
  rx     an element the server sent
  cb/h/th/gh/sm   callbacks; api: public calls made by the user; connect/hello/tls/close ...
"""
import base64, hashlib, hmac, os, re, zlib
import xml.etree.ElementTree as ET
import vh

NS_STREAM = "http://etherx.jabber.org/streams"
NS = {
    "tls": "urn:ietf:params:xml:ns:xmpp-tls", "sasl": "urn:ietf:params:xml:ns:xmpp-sasl",
    "bind": "urn:ietf:params:xml:ns:xmpp-bind", "sess": "urn:ietf:params:xml:ns:xmpp-session",
    "sm": "urn:xmpp:sm:3", "fcomp": "http://jabber.org/features/compress",
    "comp": "http://jabber.org/protocol/compress", "auth": "jabber:iq:auth",
    "fauth": "http://jabber.org/features/iq-auth", "serr": "urn:ietf:params:xml:ns:xmpp-streams",
    "stz": "urn:ietf:params:xml:ns:xmpp-stanzas", "compn": "jabber:component:accept",
}
F_DISABLE_TLS, F_MANDATORY, F_LEGACY_SSL, F_TRUST, F_LEGACY_AUTH, F_DISABLE_SM, F_COMP, F_COMP_NORESET = (
    1, 2, 4, 8, 16, 32, 64, 128)


class Splitter:
    """cuts an uncompressed client stream into stream headers, footers and complete elements"""

    def __init__(self):
        self.buf = b""
        self.ns = "jabber:client"

    TAG = re.compile(rb"<(?:[^<>'\"]|'[^']*'|\"[^\"]*\")*>")

    def feed(self, d):
        self.buf += d
        out = []
        while True:
            b = self.buf
            n = len(b) - len(b.lstrip(b" \r\n\t"))
            if n:
                out.append({"k": "ws", "raw": b[:n]})
                b = self.buf = b[n:]
            if not b:
                return out
            if b[:1] != b"<":
                j = b.find(b"<")
                out.append({"k": "junk", "raw": b if j < 0 else b[:j]})
                self.buf = b"" if j < 0 else b[j:]
                continue
            if b.startswith(b"<?"):
                j = b.find(b"?>")
                if j < 0:
                    return out
                out.append({"k": "decl", "raw": b[:j + 2]})
                self.buf = b[j + 2:]
                continue
            m = self.TAG.match(b)
            if not m:
                return out
            t = m.group(0)
            if t.startswith(b"</stream:stream"):
                out.append({"k": "close", "raw": t})
                self.buf = b[len(t):]
                continue
            if re.match(rb"<stream:stream[\s>]", t):
                out.append(self._open(t))
                self.buf = b[len(t):]
                continue
            depth, pos, end = 0, 0, None
            while True:
                m = self.TAG.search(b, pos)
                if not m or b.find(b"<", pos) != m.start():
                    if m:   # a '<' that starts no tag
                        end = -1
                    break
                t = m.group(0)
                pos = m.end()
                if t.startswith(b"</"):
                    depth -= 1
                elif t.endswith(b"/>") or t.startswith(b"<!") or t.startswith(b"<?"):
                    pass
                else:
                    depth += 1
                if depth <= 0:
                    end = pos
                    break
            if end is None:
                return out
            if end == -1:
                out.append({"k": "junk", "raw": b})
                self.buf = b""
                continue
            out.append(self._elem(b[:end]))
            self.buf = b[end:]

    def _open(self, t):
        try:
            el = ET.fromstring(t + b"</stream:stream>")
            self.ns = re.search(rb"xmlns=[\"']([^\"']*)", t).group(1).decode()
            return {"k": "open", "raw": t, "at": dict(el.attrib), "ns": self.ns, "root": el.tag}
        except (ET.ParseError, AttributeError):
            return {"k": "junk", "raw": t}

    def _elem(self, raw):
        try:
            w = ET.fromstring(b"<w xmlns:stream='%s' xmlns='%s'>" % (NS_STREAM.encode(), self.ns.encode())
                              + raw + b"</w>")
        except ET.ParseError:
            return {"k": "junk", "raw": raw}
        el = w[0]
        r = {"raw": raw, "el": el}
        ns, _, nm = el.tag[1:].rpartition("}") if el.tag[0] == "{" else ("", "", el.tag)
        r["name"], r["ns"] = nm, ns
        k = "other"
        if ns == NS["tls"] and nm == "starttls":
            k = "starttls"
        elif ns == NS["sasl"]:
            k = nm
            if nm == "auth":
                r["mech"] = el.get("mechanism") or ""
            if nm in ("auth", "response"):
                r["data"] = el.text or ""
        elif ns == NS["sm"]:
            k = {"enable": "enable", "resume": "resume", "a": "a", "r": "r"}.get(nm, "other")
            for a in ("h", "previd", "resume", "max"):
                if el.get(a) is not None:
                    r["sm_" + a] = el.get(a)
        elif ns == NS["comp"]:
            k = nm if nm == "compress" else "other"
            if k == "compress":
                m = el.find("{%s}method" % NS["comp"])
                r["method"] = m.text if m is not None else ""
        elif nm == "handshake":
            k, r["data"] = "handshake", el.text or ""
        elif ns == NS_STREAM and nm == "error":
            k = "serror"
        elif nm == "iq":
            k = "stanza"
            c = [x for x in el]
            if len(c) == 1:
                t = c[0].tag
                if t == "{%s}bind" % NS["bind"]:
                    k = "bind"
                    x = c[0].find("{%s}resource" % NS["bind"])
                    r["resource"] = None if x is None else (x.text or "")
                elif t == "{%s}session" % NS["sess"]:
                    k = "session"
                elif t == "{%s}query" % NS["auth"]:
                    k = "legacy"
                    r["lg"] = {x.tag.split("}")[1]: x.text or "" for x in c[0]}
        elif nm in ("message", "presence"):
            k = "stanza"
        r["k"] = k
        r["id"] = el.get("id")
        return r


class Link:
    def __init__(self, fd):
        self.fd = fd
        self.sp = Splitter()
        self.inf = None      # inflater for client bytes
        self.dfl = None      # deflater for server bytes
        self.sec = 0
        self.tls = False     # server switched to TLS
        self.rec = b""       # raw TLS bytes not yet framed
        self.closed = False
        self.plain = b""     # everything the client said, layers removed
        self.hello = False
        self.unframed = False


class Sim:
    def __init__(self, h, ctx=0, ck=True):
        self.h = h
        h.reset()
        self.tr = []
        self.links = {}
        self.cur = {}        # conn slot -> fd of the current attempt
        self.inbox = []      # client elements not yet answered by the server
        self.t = 0
        self.pred = []
        h.on_ask = self._ask
        self.ask_fn = None
        h.cmd("ctx %d 0" % ctx)

    # ------------------------------------------------------------ plumbing
    def _ask(self, ev):
        # events that precede the question have to be seen first
        self._sync()
        if self.ask_fn:
            return self.ask_fn(ev)
        return 1

    def _sync(self):
        log = self.h.log
        while self._pos < len(log):
            e = log[self._pos]
            self._pos += 1
            self._event(e)

    _pos = 0
    nloop = 0
    on_rd = None

    def cmd(self, line):
        try:
            ev, r = self.h.cmd(line)
        finally:
            self._sync()
        self.t = r["t"]
        self.pred = r.get("p", self.pred)
        return r

    def c(self, *a):
        return self.cmd(" ".join(vh.hx(x) if x is None or isinstance(x, (bytes, bytearray)) else str(x) for x in a))

    def add(self, e, **kw):
        d = dict(e=e, t=kw.pop("t", self.t), **kw)
        self.tr.append(d)
        return d

    def _event(self, e):
        k = e["ev"]
        if k in ("cmd", "res", "part", "sop", "wire"):
            return
        t = e.get("t", self.t)
        self.t = t
        if k == "connect":
            l = Link(e["fd"])
            self.links[e["fd"]] = l
            self.add("connect", fd=e["fd"], addr=e["addr"], fate=e["fate"])
        elif k == "tx":
            l = self.links.get(e["fd"]) or self.links.setdefault(e["fd"], Link(e["fd"]))
            self._tx(l, bytes.fromhex(e["d"]), e["sec"])
        elif k == "txr":
            self._txr(self.links[e["fd"]], bytes.fromhex(e["d"]))
        elif k == "tls":
            self.links[e["fd"]].sec = 1
            self.add("tls", **{x: v for x, v in e.items() if x not in ("ev", "t")})
        elif k == "close":
            l = self.links.get(e["fd"])
            if l:
                l.closed = True
            self.add("close", fd=e["fd"])
        elif k == "hello":
            pass
        elif k == "rx":
            self.add("rd", fd=e["fd"], n=len(e["d"]) // 2)
            if self.on_rd:
                self.on_rd(e["fd"], bytes.fromhex(e["d"]))
        elif k == "loop":
            self.nloop += 1
            self.add(k)
        else:
            self.add(k, **{x: v for x, v in e.items() if x not in ("ev", "t", "e")}, **({"ce": e["e"]} if "e" in e else {}))

    def _txr(self, l, d):
        """raw bytes under TLS: anything that is not a TLS record is clear text"""
        if not l.rec and (d[:1] not in b"\x14\x15\x16\x17\x18" or (len(d) > 1 and d[1] != 3)):
            self.add("clear", fd=l.fd, raw=d)
            self._elems(l, l.sp.feed(d), 0)
            return
        if d[:1] == b"\x16" and not l.rec and not l.hello:
            l.hello = True
            self.add("hello", fd=l.fd)
        l.rec += d
        while len(l.rec) >= 5:
            n = 5 + int.from_bytes(l.rec[3:5], "big")
            if len(l.rec) < n:
                return
            l.rec = l.rec[n:]

    def _tx(self, l, d, sec):
        w = self.add("wire", fd=l.fd, n=len(d))
        if d[:2] == b"\x16\x03" and not sec and not l.hello:
            l.hello = True
            l.unframed = True
            self.add("hello", fd=l.fd)
        if l.unframed:      # TLS that the server knows nothing about
            return
        z = 0
        if l.inf:
            z = 1
            try:
                d = l.inf.decompress(d)
            except zlib.error as x:
                self.add("badz", fd=l.fd, why=str(x))
                return
        l.plain += d
        w["d"] = d
        self._elems(l, l.sp.feed(d), sec, z)

    def _elems(self, l, els, sec, z=0):
        for x in els:
            if x["k"] in ("ws", "decl"):
                x.update(e=x["k"], fd=l.fd, sec=sec, z=z, t=self.t)
                self.tr.append(x)
                continue
            x.update(e="tx", fd=l.fd, sec=sec, z=z, t=self.t)
            self.tr.append(x)
            self.inbox.append(x)

    # ------------------------------------------------------------ server side
    def send(self, fd, data, **meta):
        """server sends data (bytes); meta describes it in the trace"""
        l = self.links[fd]
        if isinstance(data, str):
            data = data.encode()
        out = data
        if l.dfl and not meta.get("plain"):
            out = l.dfl.compress(data) + l.dfl.flush(zlib.Z_SYNC_FLUSH)
        e = self.add("rx", fd=fd, raw=data, wl=0, **meta)
        r = self.c("n.rx", fd, out)
        if r["ok"] == 1:
            e["wl"] = len(out)
        return r["ok"]

    def compress_on(self, fd, level=6):
        l = self.links[fd]
        l.inf = zlib.decompressobj()
        l.dfl = zlib.compressobj(level)

    def tls_on(self, fd):
        self.links[fd].tls = True
        self.c("n.tlson", fd)

    def ends(self, fd, r):
        """a way to end the transport"""
        return self.eof(fd, r.choice([-1, 104, -2, -3, -3] if self.links[fd].sec else [-1, 104]))

    def eof(self, fd, err=-1):
        self.add("srveof", fd=fd, err=err)
        return self.c("n.eof", fd, err)

    def run(self, ms=1, ctx=0):
        return self.cmd("run %d %d" % (ctx, ms))

    def clock(self, ms):
        return self.cmd("clock %d" % ms)

    def live(self, fd):
        l = self.links.get(fd)
        return l is not None and not l.closed

    def settle(self, server=None, n=30, ms=1):
        """run loop iterations, letting the server answer, until nothing happens"""
        idle = 0
        for _ in range(n):
            mark = len(self.tr)
            self.run(ms)
            while self.inbox:
                x = self.inbox.pop(0)
                if server and self.live(x["fd"]):
                    server(self, x)
            if all(e["e"] in ("loop",) for e in self.tr[mark:]):
                idle += 1
                if idle >= 2:
                    break
            else:
                idle = 0
        return self


def hdr(frm="example.org", sid="s1", ns="jabber:client", extra=""):
    return ("<?xml version='1.0'?><stream:stream xmlns='%s' xmlns:stream='%s' id='%s' from='%s' version='1.0'%s>"
            % (ns, NS_STREAM, sid, frm, extra))


def features(*parts):
    f = {
        "starttls": "<starttls xmlns='%s'/>" % NS["tls"],
        "starttls-req": "<starttls xmlns='%s'><required/></starttls>" % NS["tls"],
        "bind": "<bind xmlns='%s'/>" % NS["bind"],
        "session": "<session xmlns='%s'/>" % NS["sess"],
        "session-opt": "<session xmlns='%s'><optional/></session>" % NS["sess"],
        "sm": "<sm xmlns='%s'/>" % NS["sm"],
        "zlib": "<compression xmlns='%s'><method>zlib</method></compression>" % NS["fcomp"],
        "lzw": "<compression xmlns='%s'><method>lzw</method></compression>" % NS["fcomp"],
        "legacy": "<auth xmlns='%s'/>" % NS["fauth"],
        # not an offer of what the client knows: other namespaces, other places
        "x-starttls": "<starttls xmlns='%s'/>" % NS["sasl"],
        "x-bind": "<bind xmlns='urn:xmpp:bind:0'/>",
        "x-session": "<session xmlns='urn:ietf:params:xml:ns:xmpp-session:2'/>",
        "x-sm": "<sm xmlns='urn:xmpp:sm:2'/>",
        "x-zlib": "<compression xmlns='%s'><method>zlib</method></compression>" % NS["comp"],
        "x-zlib2": "<compression xmlns='%s'><methods>zlib</methods><method>zlib2</method></compression>" % NS["fcomp"],
        "x-mech": "<mechanisms xmlns='urn:xmpp:sasl:2'><mechanism>PLAIN</mechanism><mechanism>SCRAM-SHA-1</mechanism></mechanisms>",
        "x-mech2": "<authentication xmlns='urn:xmpp:sasl:2'><mechanism>PLAIN</mechanism></authentication>",
        "x-deep": "<x xmlns='urn:x'><starttls xmlns='%s'/><bind xmlns='%s'/><session xmlns='%s'/><sm xmlns='%s'/><mechanisms xmlns='%s'><mechanism>PLAIN"
                  "</mechanism></mechanisms></x>" % (NS["tls"], NS["bind"], NS["sess"], NS["sm"], NS["sasl"]),
        "x-reg": "<register xmlns='http://jabber.org/features/iq-register'/>",
    }
    out, mechs = [], []
    for p in parts:
        if p.startswith("m:"):
            mechs.append(p[2:])
        else:
            out.append(f[p])
    if mechs:
        out.append("<mechanisms xmlns='%s'>%s</mechanisms>" % (
            NS["sasl"], "".join("<mechanism>%s</mechanism>" % m for m in mechs)))
    return "<stream:features>" + "".join(out) + "</stream:features>"


DECOYS = ["x-starttls", "x-bind", "x-session", "x-sm", "x-zlib", "x-zlib2", "x-mech", "x-mech2", "x-deep", "x-reg"]


class Scram:
    def __init__(self, mech, password, salt=b"NaCl-salt", it=64, snonce="SrvNonce", cb=b""):
        self.h = {"SCRAM-SHA-1": "sha1", "SCRAM-SHA-256": "sha256", "SCRAM-SHA-512": "sha512"}[mech.replace("-PLUS", "")]
        self.pw, self.salt, self.it, self.sn = password, salt, it, snonce

    def first(self, data):
        m = base64.b64decode(data)
        g, b, bare = m.split(b",", 2)
        self.bare = bare
        n = dict(x.split(b"=", 1) for x in bare.split(b","))[b"r"]
        self.sfirst = b"r=" + n + self.sn.encode() + b",s=" + base64.b64encode(self.salt) + b",i=%d" % self.it
        return base64.b64encode(self.sfirst).decode()

    def final(self, data):
        m = base64.b64decode(data)
        wo = m[:m.rfind(b",p=")]
        am = self.bare + b"," + self.sfirst + b"," + wo
        sp = hashlib.pbkdf2_hmac(self.h, self.pw, self.salt, self.it)
        ck = hmac.new(sp, b"Client Key", self.h).digest()
        sk = hashlib.new(self.h, ck).digest()
        cs = hmac.new(sk, am, self.h).digest()
        proof = base64.b64decode(m[m.rfind(b",p=") + 3:])
        ok = bytes(a ^ b for a, b in zip(ck, cs)) == proof
        sv = hmac.new(sp, b"Server Key", self.h).digest()
        v = b"v=" + base64.b64encode(hmac.new(sv, am, self.h).digest())
        return ok, base64.b64encode(v).decode()


class Server:
    """a well-behaved server; knobs: pre/tls/post feature lists, sm behaviour, ..."""

    def __init__(self, pre=("m:PLAIN",), tls=None, post=("bind",), jid="u@example.org/r", password=b"secret",
                 sm_id="SMID", sm_resume=True, resume_ok=True, resume_h=None, host="example.org", ns="jabber:client",
                 auth_ok=True, on_stanza=None, count=True):
        self.pre, self.tlsf, self.post = pre, tls, post
        self.jid, self.password, self.host, self.ns = jid, password, host, ns
        self.sm_id, self.sm_resume, self.resume_ok, self.resume_h = sm_id, sm_resume, resume_ok, resume_h
        self.authed = False
        self.auth_ok = auth_ok
        self.on_stanza = on_stanza
        self.h = 0
        self.sm = False
        self.stanzas = []
        self.sids = 0
        self.answer_r = True
        self.answered_r = 0
        self.hooks = {}
        self.compressed = False

    def __call__(self, s, x):
        k = x["k"]
        if k in self.hooks:
            r = self.hooks[k](s, x)
            if r is not True:
                return
        f = getattr(self, "on_" + k.replace("-", "_"), None)
        if f:
            f(s, x)

    def new_connection(self):
        self.authed = False
        self.sm = False
        self.compressed = False

    def on_open(self, s, x):
        fd = x["fd"]
        l = s.links[fd]
        self.sids += 1
        data = hdr(self.host, "sid%d" % self.sids, self.ns)
        if self.ns == NS["compn"]:
            s.send(fd, data, k="open")
            return
        fl = self.post if self.authed else (self.tlsf if l.sec and self.tlsf is not None else self.pre)
        if self.compressed:
            fl = [f for f in fl if f != "zlib"]
        s.send(fd, data, k="open")
        s.send(fd, features(*fl), k="features", f=list(fl))

    def on_handshake(self, s, x):
        s.send(x["fd"], "<handshake/>", k="handshake")

    def on_starttls(self, s, x):
        s.send(x["fd"], "<proceed xmlns='%s'/>" % NS["tls"], k="proceed")
        s.tls_on(x["fd"])

    def success(self, s, fd, data=""):
        if self.auth_ok:
            self.authed = True
            s.send(fd, "<success xmlns='%s'>%s</success>" % (NS["sasl"], data), k="success")
        else:
            s.send(fd, "<failure xmlns='%s'><not-authorized/></failure>" % NS["sasl"], k="failure")

    def on_auth(self, s, x):
        fd = x["fd"]
        m = x["mech"]
        self.mech = m
        if m.startswith("SCRAM"):
            self.scram = Scram(m, self.password)
            s.send(fd, "<challenge xmlns='%s'>%s</challenge>" % (NS["sasl"], self.scram.first(x["data"])), k="challenge")
        elif m == "DIGEST-MD5":
            self.stage = 0
            c = base64.b64encode(b'realm="%s",nonce="abc",qop="auth",charset=utf-8,algorithm=md5-sess' % self.host.encode())
            s.send(fd, "<challenge xmlns='%s'>%s</challenge>" % (NS["sasl"], c.decode()), k="challenge")
        else:
            self.success(s, fd)

    def on_response(self, s, x):
        fd = x["fd"]
        if self.mech.startswith("SCRAM"):
            ok, v = self.scram.final(x["data"])
            if ok:
                self.success(s, fd, v)
            else:
                s.send(fd, "<failure xmlns='%s'><not-authorized/></failure>" % NS["sasl"], k="failure")
        elif self.mech == "DIGEST-MD5" and self.stage == 0:
            self.stage = 1
            s.send(fd, "<challenge xmlns='%s'>%s</challenge>" % (NS["sasl"], base64.b64encode(b"rspauth=abc").decode()), k="challenge")
        else:
            self.success(s, fd)

    def on_compress(self, s, x):
        s.send(x["fd"], "<compressed xmlns='%s'/>" % NS["comp"], k="compressed")
        s.compress_on(x["fd"])
        self.compressed = True

    def on_bind(self, s, x):
        s.send(x["fd"], "<iq type='result' id='%s'><bind xmlns='%s'><jid>%s</jid></bind></iq>" % (
            x["id"], NS["bind"], self.jid), k="bindres")

    def on_session(self, s, x):
        s.send(x["fd"], "<iq type='result' id='%s'/>" % x["id"], k="sessres")

    def on_legacy(self, s, x):
        s.send(x["fd"], "<iq type='result' id='%s'/>" % x["id"], k="legres")

    def on_enable(self, s, x):
        self.sm = True
        self.h = 0
        if x.get("sm_resume") and self.sm_resume:
            s.send(x["fd"], "<enabled xmlns='%s' id='%s' resume='true'/>" % (NS["sm"], self.sm_id), k="enabled", resume=1)
        else:
            s.send(x["fd"], "<enabled xmlns='%s'/>" % NS["sm"], k="enabled", resume=0)

    def on_resume(self, s, x):
        if self.resume_ok:
            self.sm = True
            h = self.h if self.resume_h is None else self.resume_h
            s.send(x["fd"], "<resumed xmlns='%s' previd='%s' h='%d'/>" % (NS["sm"], x.get("sm_previd", ""), h), k="resumed", h=h)
        else:
            s.send(x["fd"], "<failed xmlns='%s'><item-not-found xmlns='%s'/></failed>" % (NS["sm"], NS["stz"]), k="failed")

    def on_stanza_(self, s, x):
        pass

    def on_r(self, s, x):
        if self.sm and self.answer_r:
            s.send(x["fd"], "<a xmlns='%s' h='%d'/>" % (NS["sm"], self.h & 0xffffffff), k="ack", h=self.h)

    def on_close(self, s, x):
        s.send(x["fd"], "</stream:stream>", k="close")

    def on_stanza(self, s, x):
        pass


def count_stanzas(server, x):
    if server.sm and x["k"] in ("stanza", "bind", "session"):
        server.h += 1


def client(s, k=0, jid=b"u@example.org/r", password=b"secret", flags=F_DISABLE_TLS, sm=True, host=b"127.0.0.1",
           port=5222, interactive=0, connect=True):
    s.c("k.new", k, 0)
    s.c("k.int", k, interactive)
    s.c("k.jid", k, jid)
    if password is not None:
        s.c("k.pass", k, password)
    s.c("k.flags", k, flags)
    if connect:
        return dial(s, k, host, port)


def dial(s, k=0, host=b"127.0.0.1", port=5222, kind="client", ud=0):
    r = s.c("k." + kind, k, host, port, ud)
    s.add("dial", k=k, rc=r["rc"], kind=kind)
    if r["rc"] == 0:
        s.cur[k] = r["fd"]
    return r


def consumed(tr):
    """the trace with every rx event moved to the place where the client has read its last byte
    (what was never read is left out)"""
    out, q, sent, got = [], {}, {}, {}
    for e in tr:
        x = e["e"]
        if x == "rx":
            fd = e["fd"]
            sent[fd] = sent.get(fd, 0) + e["wl"]
            if e["wl"]:
                q.setdefault(fd, []).append((sent[fd], e))
            continue
        out.append(e)
        if x == "rd":
            fd = e["fd"]
            got[fd] = got.get(fd, 0) + e["n"]
            w = q.get(fd, [])
            while w and w[0][0] <= got[fd]:
                out.append(dict(w.pop(0)[1], t=e["t"]))
    return out

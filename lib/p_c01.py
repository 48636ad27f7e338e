"""C01: no peer input can crash, corrupt or wedge the client (spec/Robust.tla).

A server cooperates up to some point of the negotiation and says something hostile there, in some
chunking; then it goes on, is silent or goes away.  At the end the driver finds out whether the
connection is usable or over, and whether the object can be used again."""
import base64, os, random, zlib
import certs, core, p_c13, scen, sim, tlc, traces, vh

BIG = 1800          # bytes of one stream which are judged by the XML machine
CERTS = p_c13.CERTS


# ------------------------------------------------------------------ what a hostile server says
def b64(r, x):
    if isinstance(x, str):
        x = x.encode("utf-8", "surrogateescape")
    y = base64.b64encode(x).decode()
    k = r.random()
    if k < .06:
        y = y[:-1]
    elif k < .09:
        y = y[:3] + "\n" + y[3:]
    elif k < .12:
        y = y + "===="
    elif k < .15:
        y = y[:5] + "*" + y[5:]
    elif k < .17:
        y = ""
    return y


def nums(r):
    return r.choice(["0", "1", "-1", "", "4095", "2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551616", "9" * 60,
                     "1e3", " 7", "7 ", "0x10", "+3", "-0", "00000000000000001", "\u0663", "--1", "-4294967295", "NaN"])


def junktext(r):
    return r.choice(["", "a", "a" * 63, "a" * 64, "a" * 255, "a" * 256, "a" * 1023, "a" * 1024, "a" * 1025, "a" * 3000, "%s%n%x%s", "\u20ac" * 20, "&lt;&amp;&#0064;",
                     "=", "==", ",", ",,,", "\"", "\\", "&#10;", " ", "x" * 9000])


def scram(r, nonce="fyko", it=None):
    """a first server message; iteration counts stay below 10^5"""
    it = r.choice(["1", "2", "64", "4096", "0", "-1", "", "x", "1x", "-4294967295", "00001", "+5", " 5", "0x5", "1e3", "4294967296"[0:5], "-99999999999999999999"])
    sn = r.choice([nonce + "S", nonce, "", "S", nonce[:-1], nonce + "," + nonce, nonce + "\0", nonce + "=" * 50, nonce + "n" * r.choice([1, 200, 2000])])
    salt = r.choice(["c2FsdA==", "", "c", "*", "====", "c2FsdA", base64.b64encode(b"s" * r.choice([1, 60, 123, 124, 125, 128, 600])).decode()])
    f = ["r=" + sn, "s=" + salt, "i=" + it]
    k = r.random()
    if k < .15:
        f.pop(r.randrange(3))
    elif k < .25:
        r.shuffle(f)
    elif k < .35:
        f.insert(r.randrange(4), r.choice(["m=x", "r=" + sn, "i=2", "", "=", "x", "s", "r=", "e=other"]))
    elif k < .4:
        f = [r.choice(["r", "=", ",", "r=,s=,i=", "r=a,s=b", "", "\0", ",,,,,,"])]
    return ",".join(f)


def digest(r):
    f = ['realm="example.org"', 'nonce="abc"', 'qop="auth"', "charset=utf-8", "algorithm=md5-sess"]
    k = r.random()
    if k < .3:
        f.pop(r.randrange(len(f)))
    if r.random() < .3:
        f.insert(r.randrange(len(f) + 1), r.choice(["", "=", "realm", "realm=", 'realm="', "nonce=", 'nonce="', 'a="\\', 'a="\\"', "=x", '""', 'qop=","', 'realm="a",realm="b"', "rspauth=xyz",
                                                    'nonce="%s"' % ("n" * r.choice([1, 100, 5000])), 'realm="%s"' % ("r" * 3000), "k" * 5000 + "=1", " , ,, ", "charset", "\0=\0"]))
    if r.random() < .2:
        r.shuffle(f)
    return ",".join(f)


def sasl_text(r):
    return b64(r, r.choice([scram(r), scram(r), digest(r), digest(r), "v=" + "A" * 28, "v=", "e=invalid-proof", "rspauth=abc", "", "\0" * 20, junktext(r), "r=" * 500]))


def element(r, names, depth=0):
    """random element around the vocabulary of the protocol"""
    N = sim.NS
    n = r.choice(names)
    at = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        at.append((r.choice(["id", "type", "h", "previd", "resume", "max", "location", "from", "to", "xmlns", "mechanism", "version", "xml:lang", "zz"]), None))
    seen, a2 = set(), []
    for k, _ in at:
        if k in seen:
            continue
        seen.add(k)
        v = r.choice([nums(r), r.choice(list(N.values())), "true", "SMID", "result", "error", "get", "_xmpp_bind1", "_xmpp_session1", "_xmpp_auth1", junktext(r).replace('"', "")])
        a2.append('%s="%s"' % (k, v.replace("<", "").replace('"', "")))
    if "xmlns" not in seen and r.random() < .7:
        a2.append('xmlns="%s"' % r.choice(list(N.values())))
    kids = ""
    if depth < 3:
        kids = "".join(element(r, names, depth + 1) if r.random() < .6 else r.choice(["", junktext(r).replace("<", ""), "<![CDATA[" + "c" * r.randrange(40) + "]]>", "<!-- c -->", "<?p i?>"])
                       for _ in range(r.choice([0, 0, 1, 1, 2, 4])))
    return "<%s%s%s" % (n, "".join(" " + x for x in a2), "/>" if not kids else ">%s</%s>" % (kids, n))


NAMES = ["iq", "message", "presence", "stream:features", "stream:error", "features", "mechanisms", "mechanism", "starttls", "proceed", "failure", "success", "challenge",
         "bind", "jid", "session", "sm", "enabled", "resumed", "failed", "a", "r", "compressed", "compression", "method", "handshake", "text", "required", "optional",
         "not-authorized", "conflict", "query", "auth", "x"]
MALFORMED = [b"</x>", b"</stream:strea>", b"<a", b"<a b", b"<a b='", b"<a b='c", b"<a b='c'", b"<a/", b"<", b"<>", b"< a/>", b"<a a='1' a='2'/>", b"<a:b/>", b"<a xmlns:b=''/>", b"&", b"&x;", b"&#0;",
             b"&#x110000;", b"&#xD800;", b"<a>&</a>", b"]]>", b"<!--", b"<!-- -- -->", b"<![CDATA[", b"<![CDATA[ x", b"<?", b"<?xml version='1.0'?>", b"<?x", b"<!DOCTYPE a>", b"<!", b"\x00", b"\x01",
             b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xc3", b"\xe2\x82", b"<\xc3", b"<a><b></a></b>", b"<a", b"'", b"\"", b"<a 1='x'/>", b"<a b=c/>", b"<xmlns:a/>", b"<a xmlns='http://www.w3.org/2000/xmlns/'/>",
             b"<a xml:lang='", b"<a xmlns:xml='x'/>", b"\xef\xbb\xbf", b"\xfe\xff\x00<", b"<a>\x0c</a>", b"<a\x00/>"]


def hostile(r, S, fd):
    """bytes"""
    y = r.random()
    if y < .2:
        d = r.choice(S.pool(fd))[0]
    elif y < .34:
        d = "<%s xmlns='%s'>%s</%s>" % ((t := r.choice(["challenge", "challenge", "success", "failure"])), sim.NS["sasl"], sasl_text(r), t)
    elif y < .4:
        d = scen.replies(r)
    elif y < .5:
        d = element(r, NAMES)
    elif y < .62:
        d = r.choice(MALFORMED)
    elif y < .74:       # something proper, damaged
        d = bytearray(r.choice(S.pool(fd))[0].encode())
        for _ in range(r.choice([1, 1, 2, 4])):
            i = r.randrange(len(d))
            z = r.random()
            if z < .35:
                d[i] = r.choice(b"<>&'\"/= \0\xff\xc3az09:")
            elif z < .6:
                del d[i:i + r.choice([1, 1, 2, 9])]
            elif z < .8:
                d[i:i] = r.choice([b"<", b">", b"&amp;", b"\0", b"<x>", b"</x>", b"\xc3\xa9", b"'", b"\r\n"])
            else:
                d[i:i] = bytes(d[i:i + r.choice([3, 20])])
            if not d:
                d = bytearray(b"<")
        d = bytes(d)
    elif y < .8:
        d = bytes(r.randrange(256) for _ in range(r.choice([1, 3, 20, 200])))
    elif y < .86:
        n = r.choice([3, 20, 200, 1020, 1022, 1030, 5000, 60000])
        d = "<a>" * n + (("</a>" * n) if r.random() < .6 else "")
    elif y < .9:
        n = r.choice([100, 1000, 4095, 4096, 4097, 70000])
        d = r.choice(["<message><body>%s</body></message>" % ("t" * n), "<message id='%s'/>" % ("i" * n), "<%s/>" % ("n" * n), "<message %s/>" % " ".join("a%d='v'" % i for i in range(min(n, 3000))),
                      "<message>%s</message>" % ("<b/>" * min(n, 8000)), " " * n, "<a xmlns='%s'/>" % ("u" * n), "<message><!--%s--></message>" % ("c" * n), "<message>%s</message>" % ("&lt;" * min(n, 4000)),
                      "<challenge xmlns='%s'>%s</challenge>" % (sim.NS["sasl"], "QUFB" * min(n, 4000))])
    elif y < .93:
        d = "<!DOCTYPE a [<!ENTITY x 'yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy'>%s]>" % "".join(
            "<!ENTITY x%d '%s'>" % (i, ("&x%d;" % (i - 1) if i else "&x;") * 12) for i in range(r.choice([0, 2, 9]))) + "<a>&x8;</a>"
    elif y < .97:
        t = r.choice([nums(r), nums(r), "SMID", junktext(r).replace("<", "").replace("'", "").replace("&", "")])
        d = r.choice(["<a xmlns='%s' h='%s'/>", "<resumed xmlns='%s' previd='SMID' h='%s'/>", "<enabled xmlns='%s' resume='true' id='%s'/>", "<failed xmlns='%s' h='%s'/>",
                      "<enabled xmlns='%s' id='x' max='%s' resume='1'/>", "<resumed xmlns='%s' h='%s'/>"]) % (sim.NS["sm"], t)
    else:
        d = r.choice(["<iq type='result' id='_xmpp_bind1'><bind xmlns='%s'><jid>%s</jid></bind></iq>", "<iq type='result' id='_xmpp_bind1'><bind xmlns='%s'><jid/><jid>%s</jid></bind></iq>",
                      "<iq id='_xmpp_bind1'><bind xmlns='%s'><x>%s</x></bind></iq>", "<iq type='error' id='_xmpp_bind1'><bind xmlns='%s'/><error>%s</error></iq>"]) % (
            sim.NS["bind"], junktext(r).replace("<", ""))
    return d if isinstance(d, bytes) else d.encode("utf-8", "surrogatepass")


STAGES = ["accept", "header", "features1", "proceed", "tlsheader", "tlsfeatures", "auth", "response", "header2", "features2", "compressed", "header3", "features3", "bind", "session", "enable", "resume",
          "legacy", "handshake", "up", "up", "raw"]


class Rob(p_c13.Life):
    """cooperates until the stage, then says what `say` returns"""

    def __init__(self, h, r):
        p_c13.Life.__init__(self, h, r)
        self.mode = "quiet"
        self.fired = 0
        self.after = "go"
        self.good = self.calm = False
        s = self.s
        self.infl = {}
        s.on_rd = self.read
        cmd0, zon = s.cmd, s.compress_on
        self.put, self.ate, self.clear = {}, {}, {}
        self.zup, self.said = {}, {}

        def cmd(line):
            x = cmd0(line)
            if line[:5] == "n.rx " and x["ok"] == 1:
                fd = int(line.split()[1])
                self.put[fd] = self.put.get(fd, 0) + (len(line.split()[2]) - 1) // 2
            return x

        def compress_on(fd, *a):
            self.clear[fd] = self.put.get(fd, 0)
            self.s.add("zon", fd=fd)
            zon(fd, *a)
        s.cmd, s.compress_on = cmd, compress_on
        raw = s.send
        self.buf = {}

        def send(fd, data, **m):
            if isinstance(data, str):
                data = data.encode()
            l = s.links[fd]
            if l.closed:
                return 0
            self.said[fd] = self.said.get(fd, 0) + len(data)
            if self.good or l.dfl or m.get("k") in ("proceed", "compressed"):
                if self.buf.get(fd):
                    raw(fd, self.buf.pop(fd), k="x")
                return raw(fd, data, **m)
            z = r.random()
            if z < self.glue:       # together with what follows
                self.buf[fd] = self.buf.get(fd, b"") + data
                return 1
            data = self.buf.pop(fd, b"") + data
            if r.random() < self.frag0 and len(data) < 400:
                p, ok = 0, 1
                while p < len(data):
                    n = r.choice([1, 1, 1, 2, 5, 30])
                    ok = raw(fd, data[p:p + n], k="x")
                    p += n
                return ok
            return raw(fd, data, **m)
        s.send = send

    def flush(self):
        for fd in list(self.buf):
            d = self.buf.pop(fd)
            if self.s.live(fd):
                self.s.send(fd, b"", k="x") if False else self.s.c("n.rx", fd, d)

    def read(self, fd, d):
        """what the parser gets"""
        s = self.s
        l = s.links[fd]
        bad, unk = 0, 0
        n0 = self.ate.get(fd, 0)
        self.ate[fd] = n0 + len(d)
        if self.ate[fd] > self.clear.get(fd, 1 << 60) and not self.zup.get(fd):
            # has the client begun its compressed stream?
            i = len(s.tr) - 1
            while i >= 0 and not (s.tr[i]["e"] == "zon" and s.tr[i]["fd"] == fd):
                if s.tr[i]["e"] == "tx" and s.tr[i]["fd"] == fd and s.tr[i]["k"] == "open":
                    self.zup[fd] = 1
                    break
                i -= 1
        if self.ate[fd] > self.clear.get(fd, 1 << 60) and not self.zup.get(fd):
            unk, d = 1, b""
        elif self.ate[fd] > self.clear.get(fd, 1 << 60):
            if n0 < self.clear[fd]:
                unk = 1     # both in one piece: not looked at
                d = d[self.clear[fd] - n0:]
            z = self.infl.setdefault(fd, zlib.decompressobj())
            try:
                d = z.decompress(d)
                if z.eof:
                    unk = 1
            except zlib.error:
                d, bad, unk = b"", 1, 1
        n = self.eaten.get(fd, 0) + len(d)
        self.eaten[fd] = n
        if n > BIG or self.calm:
            unk = 1
        s.add("eat", fd=fd, b=[] if unk else list(d), unk=unk, bad=bad)

    def answer(self, s, x):
        fd, k = x["fd"], x["k"]
        if self.good:
            return self.sv(s, x)
        l = s.links[fd]
        sv = self.sv
        if k == "open":
            self.eaten[fd] = 0
            n = self.opens[fd] = self.opens.get(fd, 0) + 1
            if n == 1 and sv.authed:
                sv.new_connection()
            nm = ("header", "features1") if n == 1 else ("tlsheader", "tlsfeatures") if l.sec and not sv.authed else \
                ("header3", "features3") if sv.compressed else ("header2", "features2")
            if self.stage == nm[0]:
                return self.attack(fd, lambda: sv(s, x))
            if self.stage == nm[1]:
                s.send(fd, sim.hdr(ns=sv.ns), k="open")
                return self.attack(fd, lambda: sv(s, x))
        elif {"starttls": "proceed", "compress": "compressed"}.get(k, k) == self.stage:
            return self.attack(fd, lambda: sv(s, x))
        if k in ("auth", "response") and getattr(sv, "mech", "x") is None:
            return
        try:
            sv(s, x)
        except Exception:       # the client continues a negotiation that this server hasn't begun
            pass

    def attack(self, fd, go=None):
        r, s = self.r, self.s
        self.fired += 1
        s.add("stage", k=self.stage)
        if go and r.random() < .3:
            try:
                go()
            except Exception:
                pass
            go = None
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            d = self.say(fd)
            s.send(fd, d, k="x")
            if r.random() < .3 and s.live(fd):
                s.run(1)
            if not s.live(fd):
                return
        z = r.random()
        if z < .15:
            s.ends(fd, r)
        elif z < .3:
            s.send(fd, b"</stream:stream>", k="x")
        elif z < .75 and go:
            try:
                go()
            except Exception:
                pass

    def say(self, fd):
        to = {"bind": "_xmpp_bind1", "session": "_xmpp_session1", "legacy": "_xmpp_auth1"}.get(self.stage)
        if to and self.r.random() < .4:
            return scen.replies(self.r, to).encode()
        return hostile(self.r, self, fd)

    def apply0(self):
        s = self.s
        s.c("k.jid", 0, self.jid().encode())
        s.c("k.pass", 0, scen.PW)
        self.flags(self.flagword())

    def redial(self, must=0):
        s = self.s
        kind = self.cfg["kind"]
        s.inbox.clear()
        self.buf.clear()
        self.rawopen = False
        port = {"client": 5222, "component": 5347, "raw": 5222}[kind]
        for i in (1, 2, 3):
            s.c("n.fate", "10.0.0.%d/%d" % (i, port), self.r.choice(["accept", "accept", "now"]))
        at = len(s.tr)
        x = s.c("k." + kind, 0, b"127.0.0.1", port, 0)
        s.tr.insert(at, dict(e="rdial", rc=x["rc"], fd=x["fd"], must=must, t=s.t))
        if x["rc"] == 0:
            s.cur[0] = x["fd"]
        return x["rc"] == 0

    def mark(self, k, **kw):
        self.s.add("mark", k=k, **kw)

    def pump(self, n=60):
        s, idle = self.s, 0
        for _ in range(n):
            m = len(s.tr)
            s.run(1)
            while s.inbox:
                x = s.inbox.pop(0)
                if s.live(x["fd"]):
                    self.answer(s, x)
            if self.r.random() < .7:
                self.flush()
            if self.cfg["kind"] == "raw" and s.pred[0][2] and not self.rawopen:
                self.rawopen = True
                s.c("k.open", 0)
            if s.pred[0][3] and not self.buf:
                break
            if not self.buf and all(e["e"] in ("loop", "pred") for e in s.tr[m:]):
                idle += 1
                if idle >= 3:
                    break
            else:
                idle = 0

    def config(self):
        self.good = False
        self.opens, self.eaten = {}, {}
        r = self.r
        for _ in range(20):
            self.setup(self.stop)
            if self.stage == "raw":
                self.cfg["kind"] = "raw"
            elif self.cfg["kind"] == "raw" and r.random() < .8:
                self.cfg["kind"] = "client"
            break
        if self.stage in ("resume",):
            self.cfg["kind"] = "client"
        self.sv.ns = sim.NS["compn"] if self.cfg["kind"] == "component" else "jabber:client"
        if self.stage in ("auth", "response") and self.cfg["kind"] == "client":
            m = r.choice(["SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512", "DIGEST-MD5", "DIGEST-MD5", "PLAIN", "ANONYMOUS"])
            self.sv.pre = [p for p in self.sv.pre if p[:2] != "m:"] + ["m:" + m]
            self.sv.tls = ["m:" + m]


class Probe:
    """usable or over?"""

    def __init__(self, n):
        self.n, self.s = n, n.s
        n.flush()
        n.pump(300)
        fd = self.fd = n.s.cur.get(0)
        self.hidden = fd is not None and n.s.live(fd) and n.s.links[fd].tls and not n.s.links[fd].sec
        n.good = True       # nothing held back from here on

    def say(self, d):
        s = self.s
        if not s.pred[0][3] and self.fd is not None and s.live(self.fd) and not self.hidden:
            s.send(self.fd, d, k="x")

    def loops(self, k, late=False):
        s = self.s
        for _ in range(k):
            s.run(1)
        if late:
            s.clock(2100)
            s.run(1)
            s.run(1)
        s.inbox.clear()

    def unread(self):
        """everything that has arrived is read"""
        n, s, fd = self.n, self.s, self.fd
        idle, lim = 0, 10 + n.said.get(fd, 0) // 500        # an iteration inflates at least that much
        while idle < lim and fd is not None and s.live(fd) and not self.hidden and not s.pred[0][3] and n.ate.get(fd, 0) < n.put.get(fd, 0):
            a = n.ate.get(fd, 0)
            self.loops(1)
            idle = idle + 1 if n.ate.get(fd, 0) == a else 0
        if idle == lim:
            n.mark("unread")

    def probe(self):
        self.unread()
        self.n.mark("probe0")
        self.say(b"<message id='probe' from='x@y'><body>p</body></message>")
        if not self.s.pred[0][3]:
            self.s.c("k.sendraw", 0, b"<presence id='uprobe'/>")
        self.loops(3)
        self.unread()
        self.n.mark("probe1")

    def end(self):
        self.say(b"</stream:stream>")
        self.loops(3)
        self.n.mark("end1")

    def brk(self):
        self.say(b"?>-->]]>\"'></x>")
        self.loops(3, True)
        self.n.mark("late", brk=1)

    def late(self):
        self.loops(1, True)
        self.n.mark("late", brk=0)

    def user(self):
        self.s.c("k.disconnect", 0)
        self.loops(1, True)
        self.n.mark("udisc1")


def probes(n):
    p = Probe(n)
    p.probe()
    for o in n.r.choice([["late", "end", "brk", "user"], ["end", "brk", "user"], ["brk", "user"], ["late", "user"], ["user"], ["end", "user"]]):
        if n.s.pred[0][3]:
            break
        getattr(p, o)()


def model(h, moves):
    """a behaviour of ModelRobust.tla against the code"""
    r = random.Random("robm-%r" % (moves,))
    n = Rob(h, r)
    s = n.s
    s.c("k.hadd", 0, 7, None, b"message", None, -1, 1)
    n.frag0, n.glue = r.choice([0, 0, 1]), 0
    pend, hold = [], [False]
    snd = s.send

    def send(fd, data, **m):
        if hold[0]:
            pend.append(data if isinstance(data, bytes) else data.encode())
            return 1
        return snd(fd, data, **m)
    s.send = send

    def gather():
        hold[0] = True
        while s.inbox:
            x = s.inbox.pop(0)
            if s.live(x["fd"]):
                n.answer(s, x)
        hold[0] = False

    def off():
        return s.pred[0][3]

    def sym(y):
        if y in "HG":
            return pend.pop(0) if pend else b"<iq type='result' id='zz'/>"
        if y == "W":
            return r.choice([b"<presence/>", b"<x xmlns='u'><y/></x>", b"<iq type='result' id='nobody'/>", b"<message type='error'/>", b"<proceed/>"])
        if y == "B":
            return r.choice([b"</b>", b"</b>"] + MALFORMED)
        if y == "P":
            return r.choice([b"<p", b"<message id='a", b"<message><body", b"<iq type='get'><q xmlns='u'/><!-- ", b"<message><body>t"])
        return b"</stream:stream>"

    def config():
        n.stage = n.stop = "none"
        n.config()
        n.draw(dom="example.org", node="alice", res="home", hasres=1, kind="client", tls=False, flags=dict(dis=1, nosm=r.choice([0, 1])))
        n.cfg.update({"pass": 1, "cert": 0, "kind": "client", "node": "alice", "res": "home", "hasres": 1})
        n.apply0()
        pre = r.choice([["m:PLAIN"], ["m:SCRAM-SHA-1"], ["m:DIGEST-MD5", "m:PLAIN"]])
        n.sv = scen.XServer(pre=pre, password=scen.PW, jid="alice@example.org/b", post=["bind"] + r.choice([[], ["session"]]) + r.choice([[], ["sm"]]))
        n.sv.resume_ok = r.random() < .5
    config()
    for m in moves:
        a = m[0]
        fd = s.cur.get(0)
        if a == "dial":
            if off():
                pend.clear()
                config()
            n.redial()
            s.run(1)
        elif a == "rd":
            if off():
                continue
            k = r.choice([1, 1, 2, 99]) if m[1] in "HG" and len(m) == 2 else 1
            for _ in range(k):
                gather()
                if k > 1 and (not pend or off()):
                    break
                d = b"".join(sym(y) for y in m[1:])
                if s.live(fd):
                    s.send(fd, d, k="x")
                s.run(1)
                if k > 1:
                    s.run(1)
        elif a == "loop":
            s.run(1)
        elif a == "disc":
            s.c("k.disconnect", 0)
        elif a == "eof":
            if s.live(fd):
                s.ends(fd, r)
            s.run(1)
            s.run(1)
        elif a == "again":
            if off():
                again(n)
                n.calm = n.good = False
        else:
            hold[0] = False
            q = n.answer
            n.answer = lambda s, x: None
            p = Probe(n)
            n.good = False
            if a == "probe":
                p.probe()
            elif not off():
                {"end": p.end, "break": p.brk, "user": p.user}[a]()
            n.answer = q
    return finish(n)


def again(n):
    """the object works as before"""
    r, s = n.r, n.s
    n.mark("again0")
    if not s.pred[0][3]:
        return
    n.stage = n.stop = "none"
    n.config()
    n.good = True
    kind = r.choice(["client", "client", "client", "component", "raw"])
    tls = kind == "client" and r.random() < .4
    n.draw(dom="example.org", node="alice", res="home", hasres=1, kind=kind, tls=tls,
           flags=dict(dis=0 if tls else 1, trust=1 if tls else 0, mand=r.choice([0, 1]) if tls else 0, nosm=r.choice([0, 1]), comp=r.choice([0, 1]) if kind == "client" else 0))
    n.cfg.update({"pass": 1, "cert": 0, "kind": kind, "ca": 0})
    if kind != "component":
        n.cfg.update(node="alice", res="home", hasres=1)
    n.apply0()
    if tls:
        s.c("n.tlscfg", "ok", n.certs + "/good.pem", n.certs + "/good.key", "1.2", "1.3", "-", 0)
    pre = r.choice([["m:PLAIN"], ["m:SCRAM-SHA-1"], ["m:DIGEST-MD5", "m:PLAIN"]])
    n.sv = scen.XServer(pre=pre + (["starttls"] if tls else []), tls=pre, password=scen.PW, jid="alice@example.org/b",
                        post=["bind"] + r.choice([[], ["session"]]) + r.choice([[], ["sm"]]) + (["zlib"] if n.cfg["comp"] else []),
                        ns=sim.NS["compn"] if kind == "component" else "jabber:client", resume_ok=False)
    n.calm = True       # whether it connects is all that matters
    if not n.redial(must=1):
        return
    n.pump(200)
    n.mark("again1")
    fd = s.cur.get(0)
    if s.live(fd):
        z = r.random()
        if z < .4:
            s.send(fd, b"</stream:stream>", k="x")
        elif z < .7:
            s.eof(fd)
        else:
            s.c("k.disconnect", 0)
            s.run(1)
            s.clock(2100)
        for _ in range(4):
            s.run(1)
    n.mark("udisc1")


def play(h, job, release=True):
    r = random.Random("rob-%s" % (job,))
    n = Rob(h, r)
    s = n.s
    s.c("k.hadd", 0, 7, None, b"message", None, -1, 1)
    for att in range(r.choice([1, 1, 1, 2, 3])):
        n.stage = r.choice(STAGES)
        n.stop = {"response": "auth", "accept": "none", "raw": "none", "header3": "compressed", "features3": "compressed"}.get(n.stage, n.stage)
        n.config()
        n.frag0, n.glue = r.choice([(0, 0), (.5, 0), (0, .4), (.3, .3), (1, 0)])
        if not n.redial():
            break
        if n.stage == "accept":
            n.attack(s.cur[0])
        n.pump(400)
        fd = s.cur[0]
        if n.stage == "up" or not n.fired:
            for _ in range(r.choice([1, 2, 5])):
                if s.live(fd) and not s.pred[0][3] and not (s.links[fd].tls and not s.links[fd].sec):
                    n.attack(fd)
                    n.pump(300)
        z = r.random()
        if z < .1:
            s.c("k.disconnect", 0)
        elif z < .2:
            s.c("k.sendxml", 0, b"<message/>")
        probes(n)
        if not s.pred[0][3]:
            break
    return finish(n, release)


def finish(n, release=True):
    r, s = n.r, n.s
    if not s.pred[0][3] and r.random() < .7:
        Probe(n).user()
    if s.pred[0][3] and r.random() < .6:
        again(n)
    if not release:
        return
    x = s.c("k.release", 0)
    y = s.cmd("ctxfree 0")
    n.mark("rel", freed=x["freed"], live=y["live"] + y["bad"])
    return {"tr": trace(s.tr)}


def trace(tr):
    out, last = [], None
    for e in tr:
        x = e["e"]
        if x == "eat":
            out.append(dict(e="rd", fd=e["fd"], b=e["b"], unk=e["unk"], bad=e["bad"]))
        elif x == "rdial":
            last = None
            out.append(dict(e="dial", rc=e["rc"], fd=e["fd"], must=e["must"]))
        elif x == "tx":
            if e["k"] == "open":
                out.append(dict(e="open", fd=e["fd"]))
            elif e["k"] == "close":
                out.append(dict(e="close"))
            elif b"uprobe" in e["raw"]:
                out.append(dict(e="sent"))
        elif x == "stage":
            out.append(dict(e="stage", k=e["k"]))
        elif x in ("rxeof", "werr"):
            out.append(dict(e="gone", fd=e["fd"]))
        elif x == "h":
            if e.get("id") is not None and bytes.fromhex(e["id"]) == b"probe":
                out.append(dict(e="got"))
        elif x == "cb":
            out.append(dict(e="cb", ce=e["ce"], p=[int(v) for v in e["p"][0][1:4]]))
            last = None
        elif x == "pred":
            if last != e["p"]:
                last = e["p"]
                out.append(dict(e="pred", p=e["p"]))
        elif x == "mark":
            out.append({k: v for k, v in e.items() if k != "t"})
        elif x in ("sigpipe", "badfree"):
            out.append(dict(e="bad", why={"sigpipe": "SIGPIPE", "badfree": "the allocator is given a block twice or a stranger"}[x]))
    return out


def either(h, j):
    return model(h, j[1]) if j[0] == "m" else play(h, j)


def run(ck):
    CERTS[0] = certs.basic(os.path.join(ck.work, "certs"))
    n = 1500 if ck.quick else 20000
    MC = "INIT Init\nNEXT Next\nINVARIANT %s\nCONSTANTS MaxMoves=%d Exp=%s Mut=\"%s\"\n"
    ck.model("ModelRobust", MC % ("Held", 12 if ck.quick else 40, "FALSE", "") + "VIEW View\n")
    for m in () if ck.quick else ("deaf", "twice", "silent", "noreset", "stale", "stuck"):
        if not ck.tlc("ModelRobust", MC % ("Held", 9, "FALSE", m) + "VIEW View\n", name="ModelRobust_" + m, count=False).violated:
            raise tlc.TlcError("ModelRobust does not notice '%s'" % m)
    pr = traces.programs(ck, "ModelRobust", MC % ("Export", 14, "TRUE", ""), 300 if ck.quick else 4000, 15)
    jobs = ["C01-%d-%d" % (ck.seed, i) for i in range(n)] + [("m", p) for p in pr]
    cs = traces.run(ck, "CasesRobust", jobs, either)
    ck.cov["bytes_judged"] = sum(len(e["b"]) for c in cs if c for e in c["tr"] if e["e"] == "rd")
    ck.cov["attempts"] = sum(1 for c in cs if c for e in c["tr"] if e["e"] == "dial")
    ck.cov["stages_attacked"] = {}
    for c in cs:
        for e in (c["tr"] if c else ()):
            if e["e"] == "stage":
                ck.cov["stages_attacked"][e["k"]] = ck.cov["stages_attacked"].get(e["k"], 0) + 1

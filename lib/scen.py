"""Random sessions: a user, a configuration and a server that cooperates or deviates.

Session(h, r, certs) drives one connection object (slot 0) through several attempts and leaves
the observed trace in .s.tr (see sim.py) with the additional events
  cfg    the configuration that is in force for the next attempt
  dial   the user's connect call and its result
  quiet  (coop=1: the server has answered everything so far as a correct server does)"""
import base64, random, re
import sim, vh

ALL_MECHS = ["PLAIN", "DIGEST-MD5", "SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512", "SCRAM-SHA-1-PLUS",
             "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS", "EXTERNAL", "ANONYMOUS"]
PW = b"p4ss<&'\"w0rd"
SPECIAL = "<&'\">"


def replies(r, to=None):
    """a reply to one of the library's own requests, more or less"""
    N = sim.NS
    at = ["id='%s'" % (to or r.choice(["_xmpp_bind1", "_xmpp_session1", "_xmpp_auth1"]))]
    if r.random() < .6:
        at.append("type='%s'" % r.choice(["result", "result", "error", "error", "get", "set", "", "zz"]))
    if r.random() < .2:
        at.append("from='%s'" % r.choice(["example.org", "", "x@y"]))
    r.shuffle(at)
    kid = lambda: r.choice(["", "", "t", "<bind xmlns='%s'/>" % N["bind"], "<bind xmlns='%s'><jid>u@x/y</jid></bind>" % N["bind"], "<bind xmlns='%s'><jid/></bind>" % N["bind"],
                            "<bind xmlns='%s'><jid>a</jid><jid>b@c/d</jid></bind>" % N["bind"], "<bind><jid>u@x/y</jid></bind>", "<error type='auth'/>", "<error><not-authorized xmlns='%s'/></error>" % N["stz"],
                            "<error type='cancel'><conflict xmlns='%s'/><text xmlns='%s'>t</text><text xmlns='%s'>u</text></error>" % (N["stz"], N["stz"], N["stz"]), "<query xmlns='jabber:iq:auth'/>"])
    n = r.choice(["iq"] * 8 + ["message", "zz"])
    return "<%s %s>%s</%s>" % (n, " ".join(at), "".join(kid() for _ in range(r.choice([0, 1, 1, 2]))), n)


def reply(r):
    """with its kind: whatever has the id of the request and says that it's a result, is one"""
    d = replies(r)
    t = d.split(">")[0]
    k = [v for i, v in (("_xmpp_bind1", "bindres"), ("_xmpp_session1", "sessres"), ("_xmpp_auth1", "legres")) if i in t][0]
    return d, dict(k=k if "type='result'" in t else "other")


class XServer(sim.Server):
    """adds -PLUS mechanisms and everything else the library may choose"""

    def on_auth(self, s, x):
        m = x["mech"].upper()
        x["mech"] = m
        if m in ("EXTERNAL", "ANONYMOUS", "PLAIN"):
            return self.success(s, x["fd"])
        return sim.Server.on_auth(self, s, x)

    def on_response(self, s, x):
        if not hasattr(self, "mech"):
            return
        return sim.Server.on_response(self, s, x)


class Session:
    def __init__(self, h, r, certs=None, p_dev=0.0, p_user=0.0, frag=0.0, kinds=("client",)):
        self.r, self.certs, self.p_dev, self.p_user, self.frag = r, certs, p_dev, p_user, frag
        self.s = s = sim.Sim(h)
        s.c("k.new", 0, 0)
        self.kinds = kinds
        self.nu = 0
        self.coop = 1
        self.noise = 0
        self.nh = 0
        self.resumable = None
        self.sv = None
        self.cfg = None
        self.slots = 0
        if frag:
            raw = s.send

            def send(fd, data, **m):
                if isinstance(data, str):
                    data = data.encode()
                if r.random() < frag and len(data) > 2 and not s.links[fd].dfl:
                    ev = s.add("rx", fd=fd, raw=data, wl=0, **m)
                    if s.links[fd].tls and not s.links[fd].sec:
                        return -2
                    ev["wl"] = len(data)
                    pos, ok = 0, 1
                    while pos < len(data):
                        n = r.choice([1, 2, 7, 40, 200])
                        ok = s.c("n.rx", fd, data[pos:pos + n])["ok"]
                        pos += n
                        if r.random() < 0.3 and pos < len(data) and s.live(fd):
                            s.run(1)
                    return ok
                return raw(fd, data, **m)
            s.send = send

    # ------------------------------------------------------------ configuration
    def draw(self, tls=None, flags=None, **over):
        r = self.r
        kind = r.choice(self.kinds)
        dom = r.choice(["example.org", "xn--bcher-kva.example", "a.b.example.org"] if tls is False else ["example.org"])
        node = None if r.random() < 0.12 else r.choice(["alice", "al.ice", "b-o_b", "a=b,c"] if r.random() < .3 else ["alice"])
        res = r.choice([None, None, "", "home", "h", "ph/one", "/",  "we<ird&'\"", "r" * 40])
        c = dict(kind=kind, dom=dom, node=node or "-", res=res if res else "-", hasres=1 if res is not None else 0,
                 dis=0, mand=0, lssl=0, trust=0, legacy=0, nosm=0, comp=0, cnr=0, cert=0, certpass=0)
        if flags is None:
            x = r.random()
            if tls is False or x < 0.25:
                c["dis"] = 1
            elif x < 0.55:
                c["mand"] = 1
            elif x < 0.68:
                c["lssl"] = 1
                c["mand"] = r.choice([0, 1])
            c["legacy"] = 1 if r.random() < 0.3 else 0
            c["nosm"] = 1 if r.random() < 0.25 else 0
            c["comp"] = 1 if r.random() < 0.3 else 0
        c.update(flags or {})
        c["pass"] = 0 if r.random() < 0.08 else 1
        if not c["dis"]:
            x = r.random()
            if x < 0.75:
                c["trust"] = 1
            elif x < 0.95:
                c["ca"] = 1
            c["cert"] = 1 if r.random() < 0.2 else 0
        c.update(over)
        if kind == "component":
            c.update(node="-", res="-", hasres=0)
        self.cfg = c
        return c

    def jid(self):
        c = self.cfg
        return ((c["node"] + "@" if c["node"] != "-" else "") + c["dom"] +
                (("/" + (c["res"] if c["res"] != "-" else "")) if c["hasres"] else ""))

    def bare(self):
        return self.jid().split("/")[0]

    def flagword(self):
        c = self.cfg
        return (c["dis"] * 1 | c["mand"] * 2 | c["lssl"] * 4 | c["trust"] * 8 | c["legacy"] * 16 | c["nosm"] * 32 |
                c["comp"] * 64 | c["cnr"] * 128)

    def apply(self):
        s, c = self.s, self.cfg
        s.c("k.jid", 0, self.jid().encode())
        s.c("k.pass", 0, PW if c["pass"] else None)
        s.c("k.flags", 0, self.flagword())
        if not c["dis"] and self.certs:
            if c.get("ca"):
                s.c("k.cafile", 0, (self.certs + "/ca.pem").encode())
            s.c("k.clientcert", 0, *((self.certs + "/cli.pem").encode(), (self.certs + "/cli.key").encode()) if c["cert"] else (None, None))
        else:
            s.c("k.clientcert", 0, None, None)

    # ------------------------------------------------------------ server
    def draw_server(self, **over):
        r, c = self.r, self.cfg
        usable = ["PLAIN", "DIGEST-MD5", "SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512"]
        n = r.choice([1, 1, 2, 3, 5])
        m = (["EXTERNAL", "PLAIN"] + r.sample(ALL_MECHS[:], r.choice([0, 0, 1])) if r.random() < 0.12 else r.sample(ALL_MECHS, n))
        m = list(dict.fromkeys(m)) + r.sample(["X-OAUTH", "GSSAPI", "SCRAM-SHA-384", "PLAIN2", "XPLAIN"], r.choice([0, 0, 1]))
        r.shuffle(m)
        if r.random() < 0.1:
            m = [x.lower() for x in m]
        mechs = ["m:" + x for x in m]
        if r.random() < 0.15:
            mechs = []
        pre = list(mechs) if r.random() < 0.85 else []
        extra = r.sample(["bind", "session", "sm", "legacy", "zlib"], r.choice([0, 0, 1, 2]))
        pre += extra
        tls = None
        if r.random() < 0.7:
            pre.append(r.choice(["starttls", "starttls-req"]))
            if r.random() < 0.5 and mechs:
                m2 = ["m:" + x for x in r.sample(ALL_MECHS, r.choice([1, 1, 2, 4]))]
            else:
                m2 = mechs
            tls = m2 + r.sample(["bind", "session", "legacy", "starttls"], r.choice([0, 0, 0, 1]))
        post = ["bind"] if r.random() < 0.93 else []
        post += r.sample(["session", "session-opt"], r.choice([0, 0, 1]))
        if r.random() < 0.6:
            post.append("sm")
        if r.random() < 0.5:
            post.append(r.choice(["zlib", "zlib", "lzw"]))
        post += r.sample(["starttls", "legacy"], r.choice([0, 0, 0, 1]))
        if r.random() < 0.25:
            for l in (pre, tls, post):
                if l is not None:
                    l += r.sample(sim.DECOYS, r.choice([0, 1, 2, 4]))
        if r.random() < 0.1:
            post = [x for x in post if x not in ("sm", "session")] + ["x-sm", "x-session"]
        r.shuffle(pre)
        r.shuffle(post)
        kw = dict(pre=pre, tls=tls, post=post, password=PW, host=c["dom"], jid=self.bare() + "/bound",
                  ns=sim.NS["compn"] if c["kind"] == "component" else "jabber:client")
        kw.update(over)
        sv = XServer(**kw)
        if self.resumable is not None and r.random() < 0.3:
            self.resumable = None
        sv.refuse = 0 if self.p_dev == 0 or r.random() < 0.65 else r.choice([0.5, 0.9, 1])
        sv.resume_ok = self.resumable is not None
        sv.h = self.resumable or 0
        sv.sm_resume = r.random() < 0.8
        self.sv = sv
        return sv

    def pool(self, fd):
        """any element a server could send, in or out of place"""
        r = self.r
        N = sim.NS
        sasl = lambda t, x="": "<%s xmlns='%s'>%s</%s>" % (t, N["sasl"], x, t)
        iq = lambda ty, id, x="": "<iq type='%s' id='%s'>%s</iq>" % (ty, id, x)
        fl = ["m:" + x for x in r.sample(ALL_MECHS, r.choice([0, 1, 2, 3]))] + \
            r.sample(["starttls", "bind", "session", "sm", "zlib", "legacy", "session-opt", "lzw"] + sim.DECOYS[:8], r.choice([0, 1, 2, 4]))
        return [
            (sim.features(*fl), dict(k="features", f=fl)),
            ("<proceed xmlns='%s'/>" % N["tls"], dict(k="proceed")),
            ("<failure xmlns='%s'/>" % N["tls"], dict(k="tlsfailure")),
            (sasl("success"), dict(k="success")),
            (sasl("failure", "<not-authorized/>"), dict(k="failure")),
            (sasl("challenge", base64.b64encode(r.choice([b"r=abc,s=c2FsdA==,i=5", b"rspauth=abc", b'nonce="a",qop="auth",realm="x",charset=utf-8',
                                                           b"", b"zzz"])).decode()), dict(k="challenge")),
            (sasl("aborted"), dict(k="other")),
            ("<compressed xmlns='%s'/>" % N["comp"], dict(k="compressed0")),
            ("<failure xmlns='%s'><setup-failed/></failure>" % N["comp"], dict(k="compfail")),
            (iq("result", "_xmpp_bind1", "<bind xmlns='%s'><jid>u@x/y</jid></bind>" % N["bind"]), dict(k="bindres")),
            (iq("result", "_xmpp_bind1"), dict(k="bindres")),
            (iq("error", "_xmpp_bind1"), dict(k="binderr")),
            (iq("result", "_xmpp_session1"), dict(k="sessres")),
            (iq("error", "_xmpp_session1"), dict(k="sesserr")),
            (iq("result", "_xmpp_auth1"), dict(k="legres")),
            (iq("error", "_xmpp_auth1"), dict(k="legerr")),
            ("<enabled xmlns='%s' id='X1' resume='true'/>" % N["sm"], dict(k="enabled", resume=1)),
            ("<enabled xmlns='%s'/>" % N["sm"], dict(k="enabled", resume=0)),
            ("<resumed xmlns='%s' previd='SMID' h='0'/>" % N["sm"], dict(k="resumed")),
            ("<resumed xmlns='%s' previd='WRONG' h='0'/>" % N["sm"], dict(k="other")),
            ("<failed xmlns='%s'><item-not-found xmlns='%s'/></failed>" % (N["sm"], N["stz"]), dict(k="failed")),
            ("<failed xmlns='%s' h='1'/>" % N["sm"], dict(k="failed")),
            ("<r xmlns='%s'/>" % N["sm"], dict(k="r")),
            ("<a xmlns='%s' h='%d'/>" % (N["sm"], r.choice([0, 1, 5])), dict(k="ack")),
            ("<handshake/>", dict(k="handshake")),
            ("<message from='x@y' id='m1'><body>hi</body></message>", dict(k="stanza")),
            ("<presence from='x@y'/>", dict(k="stanza")),
            (iq("get", "q1", "<ping xmlns='urn:xmpp:ping'/>"), dict(k="stanza")),
            ("<stream:error><conflict xmlns='%s'/></stream:error>" % N["serr"], dict(k="serror")),
            ("<stream:error>%s</stream:error>" % "".join(r.choice(["<text xmlns='%s' xml:lang='%s'>%s</text>" % (N["serr"], r.choice(["en", "de"]), r.choice(["", "t", "bye" * 30])),
                                                                 "<%s xmlns='%s'/>" % (r.choice(["conflict", "reset", "not-authorized", "zz"]), N["serr"]), "<app xmlns='urn:a'>x</app>"])
                                                       for _ in range(r.choice([0, 2, 2, 3, 5]))), dict(k="serror")),
            reply(r),
            ("</stream:stream>", dict(k="close")),
            (sim.hdr(), dict(k="open")),
        ]

    def answer(self, s, x):
        r = self.r
        fd = x["fd"]
        if x["k"] in ("auth", "response") and r.random() < getattr(self.sv, "refuse", 0) and \
                not (getattr(self.sv, "at", "") == "response" and x["k"] == "auth" and x["mech"].startswith(("SCRAM", "DIGEST"))):
            # falls back through what is left of the mechanisms
            self.coop = 0
            c = r.choice(["not-authorized", "not-authorized", "invalid-mechanism", "mechanism-too-weak", "temporary-auth-failure", "aborted", None])
            s.send(fd, "<failure xmlns='%s'>%s</failure>" % (sim.NS["sasl"], "<%s/>" % c if c else ""), k="failure")
            return
        if self.p_dev and r.random() < self.p_dev:
            self.coop = 0
            y = r.random()
            if y < 0.12:
                return                      # says nothing
            if y < 0.17:
                s.ends(fd, r)
                return
            d, m = r.choice(self.pool(fd))
            before = r.random() < 0.5
            if before:
                s.send(fd, d, **m)
                if r.random() < 0.5:
                    return
            self.sv(s, x)
            if not before and s.live(fd):
                s.send(fd, d, **m)
            return
        self.sv(s, x)

    # ------------------------------------------------------------ user
    def user(self):
        r, s = self.r, self.s
        y = r.random()
        self.nu += 1
        if y < 0.35:
            s.add("submit", n=self.nu)
            s.c("k.sendxml", 0, b"<message to='bob@example.org' id='usr-%d'><body>x</body></message>" % self.nu)
        elif y < 0.5:
            s.add("submit", n=self.nu)
            s.c("k.sendraw", 0, b"<presence id='usr-%d'/>" % self.nu)
        elif y < 0.55:
            s.add("submit", n=self.nu)
            s.c("k.sendstr", 0, b"<iq type='get' id='usr-%d'><q xmlns='urn:q'/></iq>" % self.nu)
        elif y < 0.8:
            s.c("k.tadd", 0, r.randrange(4), r.choice([0, 1, 5, 50]), -1, 1)
        elif y < 0.97:
            s.c("k.hadd", 0, r.randrange(4), None, None, None, -1, 1)
        else:
            s.add("udisc")
            s.c("k.disconnect", 0)
            self.coop = 0

    # ------------------------------------------------------------ run
    def dial(self):
        s, c = self.s, self.cfg
        self.coop = 1
        s.inbox.clear()
        s.add("cfg", **c)
        kind = c["kind"]
        port = {"client": 5222, "component": 5347, "raw": 5222}[kind]
        if self.certs:
            s.c("n.tlscfg", c.get("tlsmode", "ok"), self.certs + "/good.pem", self.certs + "/good.key", "1.2", c.get("tlsmax", "1.3"),
                self.certs + "/ca.pem" if c["cert"] else "-", 1 if c["lssl"] and kind == "client" else 0)
        r = sim.dial(s, 0, b"127.0.0.1", port, kind)
        if r["rc"] == 0:
            s.links[r["fd"]].tls = bool(c["lssl"] and kind == "client")
        return r["rc"] == 0

    def rounds(self, n=60, ms=1):
        s, idle = self.s, 0
        for _ in range(n):
            mark = len(s.tr)
            if self.p_user and self.r.random() < self.p_user:
                self.user()
            s.run(ms)
            while s.inbox:
                x = s.inbox.pop(0)
                if s.live(x["fd"]):
                    self.answer(s, x)
            if all(e["e"] == "loop" for e in s.tr[mark:]):
                idle += 1
                if idle >= 3:
                    break
            else:
                idle = 0

    def up(self):
        return bool(self.s.pred and self.s.pred[0][2])

    def finish(self):
        """ends the attempt somehow"""
        r, s = self.r, self.s
        fd = s.cur.get(0)
        if fd is None or not s.live(fd):
            s.run(1)
            return
        y = r.random()
        self.coop = 0
        if y < 0.4:
            s.ends(fd, r)
        elif y < 0.6:
            s.send(fd, "</stream:stream>", k="close")
        else:
            s.add("udisc")
            s.c("k.disconnect", 0)
            if r.random() < 0.5:
                s.run(1)
                if s.live(fd):
                    s.send(fd, "</stream:stream>", k="close")
            else:
                s.clock(2500)
        for _ in range(4):
            s.run(1)
        s.inbox.clear()


LEAKS = [PW, PW.replace(b"&", b"&amp;").replace(b"<", b"&lt;").replace(b'"', b"&quot;"),
         PW.replace(b"&", b"&amp;").replace(b"<", b"&lt;")]
B64 = re.compile(rb"[A-Za-z0-9+/]{8,}={0,2}")


def leaks(raw):
    if any(p in raw for p in LEAKS):
        return True
    for m in B64.findall(raw):
        try:
            d = base64.b64decode(m + b"=" * (-len(m) % 4))
        except ValueError:
            continue
        if PW in d:
            return True
    return False


def compact(tr):
    """the trace as the negotiation specification sees it"""
    out = []
    lp = 0
    for e in sim.consumed(tr):
        x = e["e"]
        if x == "loop":
            lp += 1
        elif x == "cfg":
            d = {k: e[k] for k in ("kind", "dom", "node", "res", "dis", "mand", "lssl", "legacy", "nosm", "comp", "cert")}
            d.update(e="cfg", bare=(e["node"] + "@" if e["node"] != "-" else "") + e["dom"], hasres=e["hasres"],
                     havepw=e["pass"], cool=1 if e.get("tlsmode", "ok") == "ok" and (e["trust"] or e.get("ca") or e["dis"]) else 0)
            out.append(d)
        elif x == "dial":
            out.append(dict(e="dial", rc=0 if e["rc"] == 0 else 1))
        elif x == "connect":
            out.append(dict(e="conn"))
        elif x == "tx":
            d = dict(e="tx", k=e["k"], sec=e["sec"], z=e["z"], pw=1 if leaks(e["raw"]) else 0, lp=lp)
            if e["k"] == "open":
                d.update(to=e["at"].get("to", "-"), frm=e["at"].get("from", "-"), ns=e["ns"])
            elif e["k"] == "auth":
                d["mech"] = e["mech"].upper()
            elif e["k"] == "bind":
                d["res"] = "-" if e["resource"] is None else e["resource"]
            elif e["k"] == "compress":
                d["method"] = e["method"]
            out.append(d)
        elif x == "rx":
            d = dict(e="rx", k=e.get("k", "other"), lp=lp)
            if d["k"] == "features":
                d["f"] = sorted({("m:" + y[2:].upper()) if y.startswith("m:") else {"starttls-req": "starttls", "session-opt": "session"}.get(y, y)
                                 for y in e["f"]})
                d["opt"] = 1 if "session-opt" in e["f"] else 0
            out.append(d)
        elif x == "cb":
            out.append(dict(e="cb", ce=e["ce"]))
        elif x in ("h", "th"):
            out.append(dict(e="uh"))
        elif x in ("hello", "tls"):
            out.append(dict(e=x))
        elif x == "clear":
            if e["raw"].replace(b" ", b"") not in b"</stream:stream>":
                out.append(dict(e=x))
        elif x == "quiet":
            out.append(dict(e="quiet", coop=e["coop"]))
    return out

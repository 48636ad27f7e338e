"""Random stanza-API programs that respect the ownership rules, and the recording of their results."""
import vh, p_c10

B = lambda s: list(s) if s is not None else None
opt = lambda h: [] if h is None else [list(bytes.fromhex(h))]
NAMES = [b"message", b"iq", b"presence", b"body", b"x", b"query", b"a", b"error", b"text", b"_n-1.z", b"\xc3\xa9l"]
NS = [b"jabber:client", b"urn:a", b"urn:b", b"", b"jabber:server", b"http://x/?a=1&b=<2>\"'", b"urn:ietf:params:xml:ns:xmpp-stanzas"]
KEYS = [b"id", b"type", b"to", b"from", b"xml:lang", b"a", b"b", b"A", b"_c-1", b"\xc3\xa9"]
BITS = [b"", b"a", b"hello world", b"<", b">", b"&", b"'", b'"', b"</body>", b"<a/>", b"&lt;", b"&amp;", b"&#10;", b"]]>", b"<![CDATA[", b"-->", b"<!--", b"\n", b"\r", b"\t",
        b"\r\n", b" ", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xef\xbf\xbd", b"'/><evil a='", b'"/><evil a="', b"=", b"/", b"?", b"x" * 50]
BAD = [b"\x01", b"\x0b", b"\x1f", b"\x7f", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xc0\x80"]


def text(r, bad=0):
    t = b"".join(r.choice(BITS) for _ in range(r.choice([0, 1, 1, 2, 3, 4])))
    k = r.random()
    if k < .04:
        t += b"y" * r.choice([900, 1000, 1010, 1020, 1023, 1024, 1025, 2047, 3000])
    if bad and r.random() < bad:
        t += r.choice(BAD) + r.choice(BITS)
    return t


class Gen:
    """slots 0..N-1; own: references held by the program. node model just deep enough for validity"""
    N = 10

    def __init__(self, r, n, bad=.05):
        self.r, self.bad = r, bad
        self.cmds = []
        self.nodes = []            # [kind, parent, children, refs(total), has_from]
        self.slot = {}             # slot -> (node, owned)
        for _ in range(n):
            self.step()
        self.finish()

    def emit(self, line, **o):
        self.cmds.append((line, o))

    def free_slot(self):
        s = [i for i in range(self.N) if i not in self.slot]
        return self.r.choice(s) if s else None

    def alloc(self, kind, parent=None):
        self.nodes.append({"k": kind, "p": parent, "ch": [], "ref": 1, "at": {}, "n": None, "d": b""})
        return len(self.nodes) - 1

    def owned(self):
        return [i for i, (n, o) in self.slot.items() if o]

    def usable(self):
        return list(self.slot)

    def unref(self, x):
        n = self.nodes[x]
        if n["ref"] > 1:
            n["ref"] -= 1
            return
        n["ref"] = 0
        for c in n["ch"]:
            self.nodes[c]["p"] = None
            self.unref(c)
        # borrowed slots to dead nodes are forgotten
        for s in [s for s, (m, o) in self.slot.items() if not o and self.nodes[m]["ref"] == 0]:
            self.emit("s.forget %d" % s, op="forget", i=s)
            del self.slot[s]

    def copytree(self, x, parent=None):
        c = self.alloc(self.nodes[x]["k"], parent)
        self.nodes[c].update(at=dict(self.nodes[x]["at"]), n=self.nodes[x]["n"], d=self.nodes[x]["d"])
        self.nodes[c]["ch"] = [self.copytree(y, c) for y in self.nodes[x]["ch"]]
        return c

    def weight(self, x):
        n = self.nodes[x]
        return 1 + len(n["d"]) // 8 + sum(len(v) // 8 for v in n["at"].values()) + sum(self.weight(c) for c in n["ch"])

    def sub(self, parent, kind, name=None, at=None, d=b""):
        c = self.alloc(kind, parent)
        self.nodes[c].update(n=name, at=at or {}, d=d)
        self.nodes[parent]["ch"].append(c)
        return c

    def step(self):
        r = self.r
        ops = [("new", 6), ("build", 10), ("add", 12), ("addx", 4), ("name", 3), ("text", 3), ("attr", 10), ("delattr", 3), ("clone", 3), ("alias", 4), ("copy", 4), ("release", 6),
               ("ctor", 5), ("setbody", 3), ("reply", 3), ("replyerr", 3), ("render", 8), ("tree", 4), ("info", 2), ("get", 2), ("gettext", 3), ("getbody", 2), ("find", 4),
               ("parse", 4), ("reparse", 5)]
        k = r.choices([o for o, _ in ops], [w for _, w in ops])[0]
        f = self.free_slot()
        us = self.usable()
        S = lambda: r.choice(us)
        h = vh.hx
        if k in ("new", "build"):
            if f is None:
                return
            x = self.alloc("unk")
            self.slot[f] = (x, True)
            self.emit("s.new %d 0" % f, op="new", i=f)
            if k == "build":
                if r.random() < .35:
                    self.settext(f)
                else:
                    self.setname(f)
                    if r.random() < .5:
                        self.setattr(f, b"xmlns", r.choice(NS))
            return
        if k == "ctor":
            if f is None:
                return
            w = r.choice(["message", "iq", "presence", "error"])
            a, b, c = [r.choice([None, text(r, 0)]) for _ in range(3)]
            x = self.alloc("tag")
            self.slot[f] = (x, True)
            at = {}
            if w == "message":
                self.emit("s.message %d 0 %s %s %s" % (f, h(a), h(b), h(c)), op="message", i=f, type=a, to=b, id=c)
                at = {k2: v for k2, v in ((b"type", a), (b"to", b), (b"id", c)) if v is not None}
            elif w == "iq":
                self.emit("s.iq %d 0 %s %s" % (f, h(a), h(b)), op="iq", i=f, type=a, id=b)
                at = {k2: v for k2, v in ((b"type", a), (b"id", b)) if v is not None}
            elif w == "presence":
                self.emit("s.presence %d 0" % f, op="presence", i=f)
            else:
                code = r.randrange(24)
                self.emit("s.error %d 0 %d %s" % (f, code, h(a)), op="error", i=f, code=code, text=a)
                self.sub(x, "tag", b"cond", {b"xmlns": b"s"})
                if a is not None:
                    y = self.sub(x, "tag", b"text", {b"xmlns": b"s"})
                    self.sub(y, "txt", d=a)
            self.nodes[x].update(n=w.encode(), at=at)
            return
        if k in ("parse",):
            if f is None:
                return
            g = p_c10.G(r)
            g.weird = False
            if r.random() < .85:
                while True:
                    s = g.elem(2, {}).encode()
                    if len(s) < 800:
                        break
            else:
                s = r.choice([b"", b"text", b"<a>", b"<a></b>", b"<a/><b/>", b"<a/>junk", b" <a/> ", b"<a b='1' b='2'/>", b"&bogus;", b"<p:a/>", b"<a/></stream>", b"<!--c--><a>x</a>", b"<a/><b>"])
            if collides(s):
                return
            self.emit("s.parse %d 0 %s" % (f, h(s)), op="parse", i=f, s=s, dyn=1)
            # what it yields is not modelled here: only print and drop it
            self.probe(f)
            return
        if not us:
            return
        if k == "reparse":
            if f is None:
                return
            i = S()
            if not self.complete(self.slot[i][0]) or self.weight(self.slot[i][0]) > 500:
                return
            # rendering and re-reading with the library
            self.emit("s.render %d" % i, op="render", i=i, keep=1)
            if self.nodes[self.slot[i][0]]["k"] == "tag":
                self.emit("s.parse %d 0 @" % f, op="parse", i=f, dyn=1, s=None)
                self.probe(f)
            return
        if k == "name":
            self.setname(S())
        elif k == "text":
            self.settext(S())
        elif k == "attr":
            i = S()
            if r.random() < .3:
                self.setattr(i, b"xmlns", r.choice(NS))
            else:
                self.setattr(i, r.choice(KEYS), text(r, self.bad))
        elif k == "delattr":
            i = S()
            n = self.nodes[self.slot[i][0]]
            a = r.choice(list(n["at"]) + KEYS)
            self.emit("s.delattr %d %s" % (i, h(a)), op="delattr", i=i, k=a)
            n["at"].pop(a, None)
        elif k in ("add", "addx"):
            i, j = S(), S()
            x, y = self.slot[i][0], self.slot[j][0]
            if self.nodes[y]["p"] is not None or self.nodes[x]["k"] != "tag" or self.anc(x, y) or len(self.nodes[x]["ch"]) > 6:
                return
            own = self.slot[j][1]
            mode = 1 if k == "add" or not own else 0
            if not own:
                return
            self.emit("s.add %d %d %d" % (i, j, mode), op="add", i=i, j=j, mode=mode)
            self.nodes[x]["ch"].append(y)
            self.nodes[y]["p"] = x
            if mode == 1:
                self.nodes[y]["ref"] += 1
            else:
                del self.slot[j]
                for s, (m, o) in list(self.slot.items()):
                    pass
        elif k == "clone":
            if f is None:
                return
            j = S()
            x = self.slot[j][0]
            self.nodes[x]["ref"] += 1
            self.slot[f] = (x, True)
            self.emit("s.clone %d %d" % (f, j), op="clone", i=f, j=j)
        elif k == "alias":
            if f is None:
                return
            j = S()
            x = self.slot[j][0]
            how = r.choice(["child", "next"])
            c = None
            if how == "child":
                c = self.nodes[x]["ch"][0] if self.nodes[x]["ch"] else None
            elif self.nodes[x]["p"] is not None:
                sib = self.nodes[self.nodes[x]["p"]]["ch"]
                q = sib.index(x)
                c = sib[q + 1] if q + 1 < len(sib) else None
            self.emit("s.alias %d %d %s" % (f, j, how), op="alias", i=f, j=j, how=how)
            if c is not None:
                self.slot[f] = (c, False)
        elif k == "copy":
            if f is None:
                return
            j = S()
            if self.weight(self.slot[j][0]) > 400:
                return
            self.slot[f] = (self.copytree(self.slot[j][0]), True)
            self.emit("s.copy %d %d" % (f, j), op="copy", i=f, j=j)
        elif k == "release":
            ow = self.owned()
            if ow:
                self.release(r.choice(ow))
        elif k == "setbody":
            i = S()
            x = self.slot[i][0]
            n = self.nodes[x]
            t = text(r, self.bad)
            self.emit("s.setbody %d %s" % (i, h(t)), op="setbody", i=i, v=t)
            if n["k"] == "tag" and n["n"] == b"message" and not any(self.nodes[c]["k"] == "tag" and self.nodes[c]["n"] == b"body" for c in n["ch"]):
                y = self.sub(x, "tag", b"body")
                self.sub(y, "txt", d=t)
        elif k in ("reply", "replyerr"):
            if f is None:
                return
            j = S()
            n = self.nodes[self.slot[j][0]]
            if n["k"] != "tag":
                return
            if b"from" not in n["at"] and r.random() < .8:
                self.setattr(j, b"from", b"romeo@x/<&>" if r.random() < .5 else b"a@b")
            if b"to" not in n["at"] and r.random() < .5:
                self.setattr(j, b"to", b"me@here/r")
            fr = n["at"].get(b"from")
            if k == "reply":
                self.emit("s.reply %d %d" % (f, j), op="reply", i=f, j=j)
                if fr is not None:
                    x = self.alloc("tag")
                    self.nodes[x].update(n=n["n"], at={a: v for a, v in n["at"].items() if a not in (b"from", b"xmlns")})
                    self.nodes[x]["at"][b"to"] = fr
                    self.slot[f] = (x, True)
            else:
                et = r.choice([b"cancel", b"modify", b"auth", b"wait", None] if r.random() < .2 else [b"cancel", b"auth"])
                cond = r.choice([b"item-not-found", b"service-unavailable", b"bad-request", b"not-allowed"]) if r.random() < .9 else None
                t = r.choice([None, text(r), b"x"])
                self.emit("s.replyerr %d %d %s %s %s" % (f, j, h(et), h(cond), h(t)), op="replyerr", i=f, j=j, et=et, cond=cond, text=t)
                if fr is not None and et is not None and cond is not None:
                    x = self.alloc("tag")
                    at = {a: v for a, v in n["at"].items() if a not in (b"from", b"xmlns")}
                    if b"to" in n["at"]:
                        at[b"from"] = n["at"][b"to"]
                    at[b"to"] = fr
                    at[b"type"] = b"error"
                    self.nodes[x].update(n=n["n"], at=at)
                    e = self.sub(x, "tag", b"error", {b"type": et})
                    self.sub(e, "tag", cond, {b"xmlns": b"s"})
                    if t is not None:
                        y = self.sub(e, "tag", b"text", {b"xmlns": b"s"})
                        self.sub(y, "txt", d=t)
                    self.slot[f] = (x, True)
        elif k == "render":
            i = S()
            if self.weight(self.slot[i][0]) < 600:
                self.emit("s.render %d" % i, op="render", i=i)
        elif k == "tree":
            i = S()
            self.emit("s.tree %d" % i, op="tree", i=i)
        elif k == "info":
            i = S()
            self.emit("s.info %d" % i, op="info", i=i)
        elif k == "get":
            i = S()
            a = r.choice(list(self.nodes[self.slot[i][0]]["at"]) + KEYS)
            self.emit("s.get %d %s" % (i, h(a)), op="get", i=i, k=a)
        elif k == "gettext":
            i = S()
            if self.nodes[self.slot[i][0]]["k"] != "unk":
                self.emit("s.gettext %d" % i, op="gettext", i=i)
        elif k == "getbody":
            i = S()
            if self.nodes[self.slot[i][0]]["k"] == "tag":
                self.emit("s.getbody %d" % i, op="getbody", i=i)
        elif k == "find":
            self.find(S(), f)

    def probe(self, f):
        """look at a parsed object without tracking it, then drop it"""
        self.emit("s.tree %d" % f, op="tree", i=f, cond=1)
        if self.r.random() < .5:
            self.emit("s.render %d" % f, op="render", i=f, cond=1)
        self.emit("s.release %d" % f, op="release", i=f, cond=1)

    def find(self, j, f):
        r, h = self.r, vh.hx
        x = self.slot[j][0]
        n = self.nodes[x]
        if f is None:
            return
        kids = [self.nodes[c] for c in n["ch"] if self.nodes[c]["k"] == "tag"]
        if any(self.nodes[c]["k"] == "unk" for c in n["ch"]):
            return
        pick = r.choice(kids) if kids else None
        nm = pick["n"] if pick and r.random() < .8 else r.choice(NAMES)
        ns = pick["at"].get(b"xmlns") if pick and r.random() < .8 else r.choice(NS)
        if ns is None:
            ns = b"urn:a"
        how = r.choice(["name", "ns", "both", "path"])
        if how == "path":
            if n["k"] != "tag":
                return
            els = [(n["n"] if r.random() < .95 else b"zz", n["at"].get(b"xmlns") if r.random() < .3 else None)]
            cur = n
            for _ in range(r.randrange(0, 3)):
                ks = [self.nodes[c] for c in cur["ch"] if self.nodes[c]["k"] == "tag"]
                if any(self.nodes[c]["k"] == "unk" for c in cur["ch"]):
                    return
                if ks and r.random() < .85:
                    cur = r.choice(ks)
                    els.append((cur["n"], cur["at"].get(b"xmlns") if r.random() < .5 else None))
                else:
                    els.append((r.choice(NAMES), r.choice([None, b"urn:a"])))
            if any(u is not None and (b"'" in u or b"]" in u or b"[" in u or not u) for _, u in els):
                return
            # every element reachable along the path must be complete
            strs = [e + (b"[@ns='" + u + b"']" if u is not None else b"") for e, u in els]
            if not self.complete(x):
                return
            self.emit("s.find %d %d path %s" % (f, j, " ".join(h(s) for s in strs)), op="find", i=f, j=j, how="path", path=els, borrow=1)
        else:
            a = nm if how != "ns" else ns
            self.emit("s.find %d %d %s %s %s" % (f, j, how, h(a), h(ns if how == "both" else None)), op="find", i=f, j=j, how=how, a=a, b=ns, borrow=1)
        self.emit("s.forget %d" % f, op="forget", i=f)

    def complete(self, x):
        n = self.nodes[x]
        return n["k"] != "unk" and all(self.complete(c) for c in n["ch"])

    def anc(self, x, y):
        while x is not None:
            if x == y:
                return True
            x = self.nodes[x]["p"]
        return False

    def setname(self, i):
        n = self.nodes[self.slot[i][0]]
        v = self.r.choice(NAMES)
        if n["n"] == b"error" and n["k"] == "tag" and self.r.random() < .7:
            return
        self.emit("s.name %d %s" % (i, vh.hx(v)), op="name", i=i, v=v)
        if n["k"] != "txt":
            n["k"], n["n"] = "tag", v

    def settext(self, i):
        n = self.nodes[self.slot[i][0]]
        v = text(self.r, self.bad)
        if self.r.random() < .3:
            if self.r.random() < .1:
                v += b"\0tail"
            self.emit("s.textn %d %s" % (i, vh.hx(v)), op="text", i=i, v=v)
        else:
            self.emit("s.text %d %s" % (i, vh.hx(v)), op="text", i=i, v=v)
        if n["k"] != "tag":
            n["k"], n["d"] = "txt", v

    def setattr(self, i, k, v):
        n = self.nodes[self.slot[i][0]]
        if k == b"xmlns" and self.r.random() < .3:
            self.emit("s.set %d ns %s" % (i, vh.hx(v)), op="attr", i=i, k=k, v=v)
        elif k in (b"id", b"type", b"to", b"from") and self.r.random() < .5:
            self.emit("s.set %d %s %s" % (i, k.decode(), vh.hx(v)), op="attr", i=i, k=k, v=v)
        else:
            self.emit("s.attr %d %s %s" % (i, vh.hx(k), vh.hx(v)), op="attr", i=i, k=k, v=v)
        if n["k"] == "tag":
            n["at"][k] = v

    def release(self, s):
        x, _ = self.slot.pop(s)
        self.emit("s.release %d" % s, op="release", i=s)
        self.unref(x)

    def finish(self):
        ow = self.owned()
        self.r.shuffle(ow)
        for s in ow:
            x = self.slot[s][0]
            if self.r.random() < .3:
                self.emit("s.render %d" % s, op="render", i=s)
            self.release(s)


def collides(s):
    """attributes with equal local names (library limitation, see KNOWN_FINDINGS)"""
    import xml.parsers.expat as X
    bad = []

    def start(n, a):
        l = [k.split("\x1f")[-1] for k in a[::2]]
        if len(l) != len(set(l)):
            bad.append(n)
    p = X.ParserCreate(None, "\x1f")
    p.ordered_attributes = 1
    p.StartElementHandler = start
    try:
        p.Parse(b"<stream>" + s + b"</stream>", True)
    except X.ExpatError:
        pass
    return bool(bad)


def treerec(t):
    if t is None:
        return {"k": "null"}
    if t[0] == "t":
        return {"k": "t" if t[2] else "bad", "txt": list(bytes.fromhex(t[1] or ""))}
    if t[0] == "u":
        return {"k": "u"}
    return {"k": "e" if all(a[2] for a in t[3]) else "bad", "n": list(bytes.fromhex(t[1])), "ns": opt(t[2]),
            "at": [[list(bytes.fromhex(a[0])), list(bytes.fromhex(a[1]))] for a in t[3]], "ch": [treerec(c) for c in t[4]]}


def play(h, cmds):
    """run a program; -> list of op records (spec form)"""
    ops = []
    last = None
    absent = set()
    for line, o in cmds:
        o = dict(o)
        cond, keep, dyn = o.pop("cond", 0) if o["op"] in ("tree", "render", "release") else 0, o.pop("keep", 0), o.pop("dyn", 0)
        o.pop("borrow", 0)
        if cond and o["i"] in absent:
            continue
        if line.endswith("@"):
            line = line[:-1] + vh.hx(last)
            o["s"] = last
        ev, r = h.cmd(line)
        if any((e["ev"] == "badfree" or e["ev"] == "bypass" and e["fn"] != "expat") for e in ev):
            o["op"] = "allocator"
        for k, v in list(o.items()):
            if k in ("type", "to", "id", "text", "et", "cond") and k != "op":
                o[k] = [] if v is None else [list(v)]
            elif isinstance(v, bytes):
                o[k] = list(v)
            elif v is None:
                o[k] = []
        if "path" in o:
            o["path"] = [[list(a), [] if u is None else [list(u)]] for a, u in o["path"]]
        for k in ("ok", "rc", "freed", "len", "istext", "istag", "nattr"):
            if k in r:
                o[k] = r[k]
        op = o["op"]
        if op == "info":
            for k in ("name", "ns", "type", "id", "to", "from"):
                o[k] = opt(r[k])
        elif op in ("get", "gettext", "getbody"):
            o["v"] = opt(r["v"])
            if op == "gettext":
                o["p"] = opt(r["p"])
        elif op in ("tree", "find") and "tree" in r:
            o["tree"] = treerec(r["tree"])
        elif op == "render":
            o["s"] = list(bytes.fromhex(r["s"])) if r.get("s") is not None else []
            o.setdefault("len", -1)
            last = bytes(o["s"])
        if op == "parse":
            (absent.discard if r["ok"] else absent.add)(o["i"])
        o.setdefault("j", 0)
        ops.append(o)
        if h.mark:
            h.log.append({"ev": "sop", "o": o})
    return ops

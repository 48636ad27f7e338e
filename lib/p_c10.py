"""C10: inbound XML is delivered identically however it is chunked (spec/Xml.tla)."""
import pure, vh, core

NAMES = ["a", "b", "body", "message", "iq", "x", "query", "é", "n-1", "_u", "A.b", "stream"]
NSS = ["jabber:client", "urn:x", "http://etherx.jabber.org/streams", "urn:ü", "jabber:server", "a&amp;b"]
PFX = ["p", "q", "stream", "xml", "é"]
ATTRS = ["to", "from", "id", "type", "x", "lang", "é", "xmlns2"]


def u(s):
    return s.encode("utf-8", "surrogatepass") if isinstance(s, str) else s


def ws(r, p=.15):
    return "".join(r.choice(" \n\t\r") for _ in range(r.choice([1, 1, 2, 3]))) if r.random() < p else ""


def text(r, attr=False):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        k = r.random()
        if k < .4:
            out.append("".join(r.choice("abc XYZ0129.:;/-=+") for _ in range(r.randrange(1, 12))))
        elif k < .6:
            out.append(r.choice(["&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&#65;", "&#x41;", "&#10;", "&#xD;", "&#9;", "&#x20AC;", "&#128512;", "&#xfffd;", "&#0065;"]))
        elif k < .75:
            out.append(r.choice(["é", "€", "\U0001f600", "ÿ", "日本", "\u0080", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\ufffd", "\U0010ffff"]))
        elif k < .85:
            out.append(r.choice(["\n", "\r\n", "\r", "\t", " ", "\r\r\n", "\n\r"]))
        elif k < .9:
            out.append(r.choice(["'", '"', "]", "]]", "]>", ">", "--", "?>"]) if not attr else r.choice(["]]>", ">", "--", "]"]))
        else:
            out.append("x" * r.choice([100, 127, 128, 129, 300]))
    return "".join(out)


def cdata(r):
    t = "".join(r.choice(["<", "&", "]", "]]", "a", "\r\n", "é", "<b>", "&amp;", ">", "\r", "-->"]) for _ in range(r.randrange(0, 6)))
    t = t.replace("]]>", "]] >")
    return "<![CDATA[" + t + "]]>"


def misc(r):
    k = r.random()
    if k < .5:
        return "<!--" + r.choice(["", "a", " - x", "é", "<b>", "&nope;", "->"]).replace("--", "") + "-->"
    return "<?" + r.choice(["pi", "x-y", "xmlx"]) + r.choice(["", " a", " ?", " é ? >", "\n<b>"]) + "?>"


class G:
    def __init__(self, r):
        self.r = r
        self.weird = r.random() < .35

    def attrs(self, scope, depth):
        r, out, used = self.r, [], set()
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            k = r.random()
            if k < .15:
                n = "xmlns"
                v = r.choice(NSS + [""])
                scope = dict(scope)
                scope[""] = v
            elif k < .3:
                p = r.choice(PFX[:3])
                n, v = "xmlns:" + p, r.choice(NSS)
                scope = dict(scope)
                scope[p] = v
            elif k < .45 and scope:
                ps = [p for p in scope if p] + ["xml"]
                n, v = r.choice(ps) + ":" + r.choice(ATTRS), text(r, True)
            else:
                n, v = r.choice(ATTRS), text(r, True)
            if n in used and r.random() < .95:
                continue
            used.add(n)
            if self.weird and r.random() < .02:
                n = r.choice([":a", "a:", "a:b:c", "zz:u", "1a", "xmlns:", "xmlns:xmlns", "xmlns:xml"])
            q = r.choice("'\"")
            v = v.replace("<", "").replace(q, "&quot;" if q == '"' else "&apos;")
            out.append(r.choice([" ", " ", " ", "\n", "\t", "  "]) + n + ws(r, .05) + "=" + ws(r, .05) + q + v + q)
        # prefixes used must survive: attributes may precede their declaration
        return out, scope

    def elem(self, depth, scope, root=False):
        r = self.r
        a, sc = self.attrs(scope, depth)
        if root:
            a.append(" xmlns='jabber:client' xmlns:stream='http://etherx.jabber.org/streams'")
            a = a[-1:] + [x for x in a[:-1] if "xmlns=" not in x and "xmlns:stream" not in x and x.split("=")[0].strip() not in ("xmlns",)]
            sc = dict(sc, **{"": NSS[0], "stream": NSS[2]})
        ps = [p for p in sc if p]
        n = (r.choice(ps) + ":" if ps and r.random() < .3 else "") + r.choice(NAMES)
        if root and r.random() < .8:
            n = "stream:stream"
        if self.weird and r.random() < .02:
            n = r.choice(["zz:a", "a:", "a:b:c", "1", "xmlns:a", "xml:a"])
        o = "<" + n + "".join(a) + ws(r, .1)
        if not root and r.random() < .2:
            return o + "/>"
        o += ">"
        for _ in range(r.choice([0, 1, 2, 3, 5]) if depth < 6 else 0):
            k = r.random()
            if k < .45:
                o += self.elem(depth + 1, sc)
            elif k < .8:
                o += text(r)
            elif k < .9:
                o += cdata(r)
            else:
                o += misc(r)
        if root and self.r.random() < .3:
            return o
        return o + "</" + n + ws(r, .1) + ">"


def doc(r):
    g = G(r)
    d = r.choice(["", "", "", "<?xml version='1.0'?>", '<?xml version="1.0"?>', "<?xml version='1.0'?>\n", "\n", "<!--x-->", "<?xml version='1.0' encoding='UTF-8'?>"])
    d += g.elem(1, {}, True)
    if r.random() < .2:
        d += r.choice([" ", "\n", "<!--e-->", "<?p?>", "x", "<a/>", "</a>"])
    b = bytearray(u(d))
    if r.random() < .4:
        for _ in range(r.choice([1, 1, 2])):
            if not b:
                break
            i = r.randrange(len(b))
            k = r.random()
            if k < .25:
                del b[i:i + r.choice([1, 1, 2, 5])]
            elif k < .5:
                b[i] = r.choice(b"<>&;'\"/=! ?-[]:a0\x00\x01\x80\xff\xc3")
            elif k < .75:
                b[i:i] = r.choice([b"<", b">", b"&", b"'", b"</a>", b"<a>", b"\x00", b"\x0b", b"]]>", b"&x;", b"&#0;", b"&#xD800;", b"&#x110000;", b"&#xFFFF;", b"<!-- -- -->", b"<!DOCTYPE a>", b"<?xml version='1.0'?>", b"\xef\xbb\xbf", b"\xc0\x80", b"\xed\xa0\x80", b"\xef\xbf\xbe"])
            else:
                del b[i:]
    return bytes(b)


FIXED = [u(x) for x in [
    "<s><a/></s>", "<s>x<a>1</a>y<a>2</a></s>", "<s><a><b>t</b></a><a>t</a></s>", "<s><a>one<!--c-->two<?p q?>three<![CDATA[four]]>&amp;five</a></s>",
    "<s xmlns='u'><a xmlns=''><b xmlns='v'><c/></b><c/></a><a/></s>", "<s xmlns:p='u'><p:a p:x='1' y='2'/><a xmlns:p='w'><p:a/></a><p:a/></s>",
    "<s><a>&#x1F600;\r\n\r\r\n</a><a b='&#10;\r\n\t&#13;&lt;'/></s>", "<s><a><![CDATA[]]></a><a><![CDATA[]]]]><![CDATA[>]]></a></s>",
    "<s><a>" + "x" * 5000 + "</a></s>", "<s><a b='" + "y" * 3000 + "'/></s>", "<s>" + "<a>" * 40 + "t" + "</a>" * 40 + "</s>",
    "<s><a>" + "é" * 700 + "&amp;" * 50 + "</a><b>z</b></s>", "<a/>", "<a></a>", "", " ", "<", "<a", "<s><a>]]></a></s>", "<s><a b='1' b='2'/></s>",
    "<s xmlns:p='u' xmlns:q='u'><a p:b='1' q:b='2'/></s>", "<s><a xmlns:p=''/></s>", "<s><p:a/></s>", "<s></t>", "<s><a></s></a>", "<s/><t/>", "<s/>x",
    "<message xml:lang='a' lang='b'/>", "<s><message xml:lang='a' lang='b'/><message lang='b' xml:lang='a'/></s>",
    "<s><a xmlns:xml='http://www.w3.org/XML/1998/namespace' xml:lang='e'/><xml:b/></s>",
    "<s><a>&undefined;</a></s>", "<s><a>&#xD800;</a></s>", "<s><a>&;</a></s>", "<s><a>& </a></s>", "<s><a b=1/></s>", "<s><a b/></s>", "<s><a 'x'/></s>",
    "<!DOCTYPE s [<!ENTITY x 'y'>]><s><a>&x;</a></s>", "<s><!DOCTYPE a></s>", "<s><a><?xml version='1.0'?></a></s>",
    "<s><a>1</a>  \n <a>2</a></s>\n", "<s><a>\n  <b/>\n</a></s>", "<s id='1' from='x' xmlns='k' version='1.0' xml:lang='en'><features/></s>"]] + [
    b"<s><a>\xff</a></s>", b"<s><a>\xc3</a></s>", b"<s><a>\xed\xa0\x80</a></s>", b"<s><a>\xef\xbf\xbf</a></s>", b"<s><a>\xf4\x90\x80\x80</a></s>",
    b"\xef\xbb\xbf<s><a/></s>", b"<s><a>\x00</a></s>", b"<s><a>\x1b</a></s>", b"<\x80/>", b"<s><a\xc2\xa0/></s>"]


def partitions(r, b, full):
    n = len(b)
    ps = [[n], [1] * n]
    if full and n <= 260:
        ps += [[i, n - i] for i in range(1, n)]
    else:
        for _ in range(4):
            i = r.randrange(0, n + 1)
            ps.append([i, n - i])
    for _ in range(4):
        p, left = [], n
        m = r.choice([2, 3, 7, 20, 64])
        while left > 0:
            k = min(left, r.randrange(1, m + 1))
            p.append(k)
            left -= k
        ps.append(p)
    return ps


def conv(ev):
    """harness events -> spec events; None if an accessor was inconsistent"""
    out = []
    for e in ev:
        if e["ev"] == "ps":
            out.append({"k": "start", "n": list(bytes.fromhex(e["name"])), "at": [[list(bytes.fromhex(a)), list(bytes.fromhex(v))] for a, v in e["attrs"]]})
        elif e["ev"] == "pe":
            out.append({"k": "end"})
        elif e["ev"] == "pz":
            t = tree(e["tree"])
            out.append({"k": "stanza", "t": t})
        elif e["ev"] == "perr":
            out.append({"k": "error"})
    return out


def tree(t):
    if t[0] == "t":
        return {"txt": list(bytes.fromhex(t[1])) if t[1] is not None and t[2] else [0]}
    _, n, ns, at, ch = t[:5]
    return {"n": list(bytes.fromhex(n)) if n is not None else [0],
            "ns": {"none": ns is None, "v": list(bytes.fromhex(ns)) if ns else []},
            "at": [[list(bytes.fromhex(a[0])), list(bytes.fromhex(a[1])) if a[1] is not None and a[2] else [0]] for a in at],
            "ch": [tree(c) for c in ch]}


def feed(h, b, parts, i=0):
    ev, at = [], 0
    for k in parts:
        if k == 0:
            continue
        e, r = h.cmd("pfeed %d %s" % (i, vh.hx(b[at:at + k])))
        ev += e
        at += k
        if not r["ok"]:
            ev.append({"ev": "perr"})
            break
    return ev


def item(h, it):
    """it = list of (bytes, partitions): segments on one parser with a restart between"""
    import json
    segs, resets = it
    h.reset()
    h.cmd("ctx 0 0")
    h.cmd("nopred")
    res = []
    if not resets:
        (b, ps), = segs
        seen = {}
        for p in ps:
            h.cmd("pnew 0 0")
            ev = feed(h, b, p)
            bad = [e for e in ev if (e["ev"] == "badfree" or e["ev"] == "bypass" and e["fn"] != "expat")]
            h.cmd("pfree 0")
            o = json.dumps(conv(ev) if not bad else [{"k": "allocator misuse"}])
            seen.setdefault(o, p)
        return [(b, [(json.loads(o), p) for o, p in seen.items()])]
    h.cmd("pnew 0 0")
    for b, ps in segs:
        p = ps[0]
        res.append((b, [(conv(feed(h, b, p)), p)]))
        _, r = h.cmd("preset 0")
    h.cmd("pfree 0")
    return res


def run(ck):
    r = ck.rng
    thorough = not ck.quick
    m = ck.model("ModelXml", "INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTANT MaxTok = %d\n" % (4 if ck.quick else 6), workers=8)
    items = []
    for b in FIXED:
        items.append(([(b, partitions(r, b, True))], False))
    for i in range(1200 if ck.quick else 12000):
        b = doc(r)
        if len(b) > 1500 and r.random() < .8:
            b = b[:1500]
        items.append(([(b, partitions(r, b, thorough and r.random() < .3 or r.random() < .05))], False))
    for i in range(250 if ck.quick else 3000):
        segs = []
        for _ in range(r.randrange(2, 5)):
            b = doc(r)[:900]
            if r.random() < .8:
                b = b[:r.randrange(0, len(b) + 1)]
            segs.append((b, [r.choice(partitions(r, b, False))]))
        items.append((segs, True))
    res = core.pmap(ck.exe, item, items)
    cases, where = [], []
    sus = {}
    for k, (it, x) in enumerate(zip(items, res)):
        if x[0] == "died":
            sus.setdefault(k, "process died: %s %s" % (x[1], x[2]))
            continue
        for b, obs in x[1]:
            cases.append({"b": list(b), "obs": [o for o, _ in obs]})
            where.append(k)
    rej = pure.judge(ck, "CasesXml", cases)
    for j, why in rej.items():
        sus.setdefault(where[j], why)
    if sus:
        import core as c
        h = vh.VH(ck.exe)
        n = 0
        for k in sorted(sus)[:30]:
            try:
                x = c.guard(item)(h, items[k])
                cs = [{"b": list(b), "obs": [o for o, _ in obs]} for b, obs in x]
                rj = pure.judge(ck, "CasesXml", cs, name="confirm")
                if not rj:
                    continue
                j = min(rj)
                why = rj[j]
                rep = {"reason": why, "bytes": repr(x[j][0]), "observed": [{"chunks": p, "events": o} for o, p in x[j][1]],
                       "segments": [repr(b) for b, _ in items[k][0]]}
                ck.violation("%s: %r" % (why, x[j][0][:200]), rep)
            except vh.Died as d:
                ck.violation("process died: %s" % d.why, {"detail": d.detail, "segments": [repr(b) for b, _ in items[k][0]]})
        h.close()
    ck.cov["documents"] = len(items)
    ck.cov["runs"] = sum(len(p) for it, _ in items for _, p in it)
    ck.samples += [repr(items[k][0][0][0][:120]) for k in (3, len(FIXED) + 1, len(items) - 1)]
    ck.assumptions += ["the XML subset of spec/Xml.tla: no DOCTYPE, UTF-8, names from ASCII and U+00C0..U+02FF; outside it only independence from the chunking is judged",
                       "attribute namespaces are not part of the library's stanza interface"]

"""C03 (and C02): stream negotiation (spec/Nego.tla)."""
import os, random
import certs, core, scen, sim, traces, vh

CERTS = [None]


def play(h, job):
    r = random.Random("nego-%s" % job[1])
    mode = job[0]
    p_dev = {"coop": 0, "dev": r.choice([0.05, 0.15, 0.4])}[mode]
    n = scen.Session(h, r, CERTS[0], p_dev=p_dev, p_user=r.choice([0, 0.1, 0.3]) , frag=r.choice([0, 0, 0.3]),
                     kinds=job[2] if len(job) > 2 else ("client", "client", "client", "client", "component"))
    s = n.s
    for a in range(r.choice([1, 1, 2, 3])):
        if a == 0 or r.random() < 0.25:
            n.draw(tls=None if r.random() < 0.75 else False)
            if mode == "dev" and r.random() < 0.1:
                n.cfg["tlsmode"] = r.choice(["garbage", "close", "rst", "alert", "silent", "cut100"])
            n.apply()
        n.draw_server()
        if not n.dial():
            continue
        n.rounds()
        if n.cfg.get("tlsmode") == "silent":
            s.clock(20000)
            n.rounds(4)
        if n.coop and mode == "coop":
            s.add("quiet", coop=1)
        if n.up():
            for _ in range(r.choice([0, 1, 3])):
                n.user()
            n.rounds(10)
            sv = n.sv
            n.resumable = 0 if sv.sm and sv.sm_resume else None
        n.finish()
    return {"tr": scen.compact(s.tr)}


MOVE = {"tlsfailure": "<failure xmlns='%s'/>" % sim.NS["tls"],
        "failure": "<failure xmlns='%s'><not-authorized/></failure>" % sim.NS["sasl"],
        "compfail": "<failure xmlns='%s'><setup-failed/></failure>" % sim.NS["comp"],
        "bindres": "<iq type='result' id='_xmpp_bind1'><bind xmlns='%s'><jid>alice@example.org/b</jid></bind></iq>" % sim.NS["bind"],
        "binderr": "<iq type='error' id='_xmpp_bind1'/>", "sessres": "<iq type='result' id='_xmpp_session1'/>",
        "legres": "<iq type='result' id='_xmpp_auth1'/>", "enabled": "<enabled xmlns='%s' id='SMID' resume='true'/>" % sim.NS["sm"],
        "failed": "<failed xmlns='%s'><item-not-found xmlns='%s'/></failed>" % (sim.NS["sm"], sim.NS["stz"]),
        "stanza": "<message from='x@y'><body>hi</body></message>", "close": "</stream:stream>",
        "proceed": "<proceed xmlns='%s'/>" % sim.NS["tls"], "resumed": "<resumed xmlns='%s' previd='SMID' h='0'/>" % sim.NS["sm"]}


def replay(h, job):
    """a server script exported from spec/ModelNego.tla"""
    flags, hist = job[1]
    n = scen.Session(h, random.Random(repr(job)), CERTS[0], kinds=("client",))
    s = n.s
    f = dict(zip(("dis", "mand", "legacy", "comp", "nosm"), flags))
    n.draw(flags=dict(f, lssl=0), dom="example.org", node="alice", res="-", hasres=0, cert=0, trust=0 if f["dis"] else 1)
    n.cfg["pass"] = 1
    n.apply()
    sv = n.sv = scen.XServer(password=scen.PW, jid="alice@example.org/b")

    def drain():
        last = {}
        for _ in range(3):
            s.run(1)
            while s.inbox:
                x = s.inbox.pop(0)
                last[x["k"]] = x
        return last

    up = n.dial()
    seen = drain()
    for m in hist:
        k = m[0]
        if k == "redial":
            fd = s.cur.get(0)
            if n.up():
                s.eof(fd)
                s.run(1)
            n.dial()
            seen = drain()
            continue
        fd = s.cur[0]
        if not s.live(fd):
            continue
        l = s.links[fd]
        if k == "features":
            f = m[1] if len(m) > 1 else []
            s.send(fd, sim.features(*f), k=k, f=list(f))
        elif k == "open":
            s.send(fd, sim.hdr(), k=k)
        elif k == "proceed" and "starttls" in seen and not l.tls:
            s.send(fd, MOVE[k], k=k)
            s.tls_on(fd)
        elif k == "compressed":
            if "compress" in seen and not l.inf:
                sv.on_compress(s, dict(fd=fd))
            else:
                s.send(fd, "<compressed xmlns='%s'/>" % sim.NS["comp"], k="compressed0")
        elif k in ("success", "challenge"):
            x = dict(seen.get("auth") or {"data": "", "mech": "-"}, fd=fd)
            if k == "challenge":
                if "response" in seen:
                    x = dict(x, data=seen["response"]["data"])
                if x["mech"].startswith("SCRAM") and "response" not in seen:
                    sv.on_auth(s, x)
                elif x["mech"] == "DIGEST-MD5" and "response" not in seen:
                    sv.on_auth(s, x)
                else:
                    s.send(fd, "<challenge xmlns='%s'>cnNwYXV0aD1hYmM=</challenge>" % sim.NS["sasl"], k=k)
            else:
                s.send(fd, "<success xmlns='%s'>%s</success>" % (sim.NS["sasl"], ""), k=k)
        else:
            s.send(fd, MOVE[k], k=k)
        seen.update(drain())
    n.finish()
    return {"tr": scen.compact(s.tr)}


CHAIN = ["PLAIN", "DIGEST-MD5", "SCRAM-SHA-256", "SCRAM-SHA-1-PLUS", "EXTERNAL", "ANONYMOUS"]
NCHAIN = 1 << (len(CHAIN) + 5)


def refuse(h, job):
    """every set of mechanisms, refused one after the other: the fallbacks of the client; job = ("ref", seed, index), the bits
    of the index are the mechanisms, then node, certificate, TLS, legacy, what is refused"""
    x = job[2]
    bit = lambda i: x >> i & 1
    r = random.Random("ref-%s-%d" % job[1:3])
    k = len(CHAIN)
    n = scen.Session(h, r, CERTS[0], kinds=("client",))
    tls = bit(k + 2)
    n.draw(flags=dict(dis=0, mand=tls and r.choice([0, 1]), lssl=0, legacy=bit(k + 3), nosm=1, comp=0), dom="example.org", trust=1,
           cert=bit(k + 1), node="-" if bit(k) else "alice", res="-", hasres=0)
    n.cfg["pass"] = 1
    n.apply()
    m = ["m:" + c for i, c in enumerate(CHAIN) if bit(i)]
    r.shuffle(m)
    # the mechanisms offered in the clear aren't those of the TLS session
    weak = ["m:PLAIN"] if r.random() < 0.5 else m
    n.draw_server(pre=(["starttls"] + weak if tls else m), tls=m if tls else None, post=["bind"])
    n.sv.refuse = 1
    if bit(k + 4):
        n.sv.at = "response"     # only the responses, and mechanisms without any
    n.dial()
    n.rounds(80)
    if r.random() < 0.3:
        n.draw_server(pre=["m:PLAIN"], tls=None, post=["bind"])
        n.finish()
        n.dial()
        n.rounds(30)
    n.finish()
    return {"tr": scen.compact(n.s.tr)}


def run(ck, rules='{"C03"}'):
    CERTS[0] = certs.basic(os.path.join(ck.work, "certs"))
    ck.model("ModelNego", "INIT Init\nNEXT Next\nINVARIANTS Sound UpOk Mandatory\nVIEW View\n"
             "CONSTANTS MaxMoves=%d Exp=FALSE Rules={\"C02\",\"C03\"}\n" % (6 if ck.quick else 8))
    depth = 18
    pr = traces.programs(ck, "ModelNego", "INIT Init\nNEXT Next\nINVARIANT Export\n"
                         "CONSTANTS MaxMoves=%d Exp=TRUE Rules={\"C02\",\"C03\"}\n" % depth, 1000 if ck.quick else 20000, depth + 1)
    cs = traces.run(ck, "CasesNego", [("prog", p) for p in pr], replay, name="NegoProgs", consts="CONSTANT Rules = %s\n" % rules)
    ck.cov["exported_connected"] = sum(1 for c in cs if c for e in c["tr"] if e["e"] == "cb" and e["ce"] == "connect")
    n = 1500 if ck.quick else 40000
    jobs = [("coop" if i % 2 else "dev", "%s-%d-%d" % (ck.prop, ck.seed, i)) for i in range(n)]
    cs = traces.run(ck, "CasesNego", jobs, play, consts="CONSTANT Rules = %s\n" % rules)
    idx = range(NCHAIN)
    idx = random.Random(ck.seed).sample(idx, 500) if ck.quick else list(idx) * 2
    cs2 = traces.run(ck, "CasesNego", [("ref", "%d-%d" % (ck.seed, j), i) for j, i in enumerate(idx)], refuse, name="NegoChain",
                     consts="CONSTANT Rules = %s\n" % rules)
    ck.cov["fallback_auths"] = sum(1 for c in cs2 if c for e in c["tr"] if e["e"] == "tx" and e["k"] == "auth")
    ok = [c for c in cs if c]
    ck.cov["connected"] = sum(1 for c in ok for e in c["tr"] if e["e"] == "cb" and e["ce"] == "connect")
    ck.cov["tls_sessions"] = sum(1 for c in ok for e in c["tr"] if e["e"] == "tls")
    ck.cov["requests"] = {k: sum(1 for c in ok for e in c["tr"] if e["e"] == "tx" and e["k"] == k) for k in
                          ("starttls", "auth", "response", "legacy", "compress", "bind", "session", "enable", "resume", "handshake")}
    ck.samples += [c["tr"][:40] for c in ok[:1]]

"""Running TLC and reading its answers."""
import os, re, subprocess, shutil, json

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
CP = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]


class TlcError(Exception):
    pass


class Result:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.generated = self.distinct = 0
        m = re.findall(r"(\d+) states generated(?: \(.*?\))?, (\d+) distinct states found", out)
        if m:
            self.generated, self.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"(\d+) states checked", out)
        if m:
            self.generated = int(m[-1])
        self.violated = re.findall(r"(?:Invariant|property|Property|Action property) (\S+) (?:is violated|was violated)", out)
        if "Temporal properties were violated" in out:
            self.violated.append("TEMPORAL")
        if "Deadlock reached" in out:
            self.violated.append("DEADLOCK")
        self.prints = [l for l in out.splitlines() if l.startswith("<<") or l.startswith("@")]
        self.error = None
        if rc != 0 and not self.violated:
            i = out.find("Error:")
            self.error = out[i:i + 3000] if i >= 0 else out[-3000:]


def tagged(res, tag):
    """values printed with PrintT(<<"tag", ...>>) -- returns list of raw tuples as strings"""
    pre = re.compile(r'<<\s*"%s"' % tag)
    return [l for l in _joined(res.out) if pre.match(l)]


def _joined(out):
    """join multi-line tuples printed by TLC"""
    res, cur, depth = [], "", 0
    for l in out.splitlines():
        if depth == 0 and not l.startswith("<<"):
            continue
        cur += (" " if cur else "") + l.strip()
        s = re.sub(r'"(?:[^"\\]|\\.)*"', '""', l)
        depth += s.count("<<") - s.count(">>")
        if depth <= 0:
            res.append(cur)
            cur, depth = "", 0
    return res


def parse_value(s):
    """parse a printed TLA+ value made of tuples, records, sets, strings, ints, booleans"""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos] in " \n\t":
            pos += 1

    def val():
        nonlocal pos
        ws()
        if s.startswith("<<", pos):
            pos += 2
            r = []
            ws()
            while not s.startswith(">>", pos):
                r.append(val())
                ws()
                if s[pos] == ",":
                    pos += 1
                    ws()
            pos += 2
            return r
        if s[pos] == "{":
            pos += 1
            r = []
            ws()
            while s[pos] != "}":
                r.append(val())
                ws()
                if s[pos] == ",":
                    pos += 1
                    ws()
            pos += 1
            return r
        if s[pos] == "[":
            pos += 1
            r = {}
            ws()
            while s[pos] != "]":
                m = re.compile(r"\w+").match(s, pos)
                k = m.group(0)
                pos = m.end()
                ws()
                assert s.startswith("|->", pos), s[pos:pos + 20]
                pos += 3
                r[k] = val()
                ws()
                if s[pos] == ",":
                    pos += 1
                    ws()
            pos += 1
            return r
        if s[pos] == '"':
            m = re.compile(r'"((?:[^"\\]|\\.)*)"').match(s, pos)
            pos = m.end()
            return m.group(1).replace('\\"', '"').replace("\\\\", "\\")
        m = re.compile(r"-?\d+|TRUE|FALSE|\w+").match(s, pos)
        pos = m.end()
        t = m.group(0)
        if t in ("TRUE", "FALSE"):
            return t == "TRUE"
        try:
            return int(t)
        except ValueError:
            return t
    return val()


def run(module, cfg, work, env=None, workers=8, extra=(), heap="6g", timeout=800, simulate=None,
        deadlock=False, javacp=None, name=None):
    """run TLC on SPEC/module.tla with the given cfg text; returns Result"""
    name = name or module
    d = os.path.join(work, "tlc_" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cfgp = os.path.join(d, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    cp = ":".join(([javacp] if javacp else []) + CP)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d] + (
        ["-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:DigestOverride"] if javacp else [])
    cmd += ["-cp", cp, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-config", cfgp,
                      "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
                      "-workers", str(workers), "-fpmem", "0.2"]
    if not deadlock:
        cmd.append("-deadlock")
    if simulate:
        cmd += simulate
    cmd += list(extra)
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise TlcError("TLC timeout on %s" % module)
    out = p.stdout.decode("utf-8", "replace")
    r = Result(out, p.returncode)
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    with open(os.path.join(d, "out.txt"), "w") as f:
        f.write(out)
    if r.error:
        raise TlcError("%s: %s" % (module, r.error))
    return r

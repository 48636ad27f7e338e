"""Driver for the harness process (harness/vh.c)."""
import json, os, subprocess, tempfile, select


def hx(b):
    if b is None:
        return "-"
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    return "x" + b.hex()


def unhex(s):
    return None if s is None else bytes.fromhex(s)


class Died(Exception):
    def __init__(self, why, detail=""):
        super().__init__(why)
        self.why, self.detail = why, detail


hangs = 0              # of this worker: the first ones decide, the others needn't take long


class VH:
    """One harness process. cmd() returns (events, result)."""

    def __init__(self, exe):
        self.exe = exe
        self.p = None
        self.log = []          # every event since reset
        self.script = []       # every command since reset (for replay)
        self.on_ask = None     # called with the last event -> int
        self.start()

    def start(self):
        self.close()
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, bufsize=0, env=dict(os.environ, VH_ALARM="25" if hangs < 2 else "6"))
        self.buf = b""
        self.nctx = self.nctx0 = 0     # contexts of this process: so far, and before the scenario

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def _line(self):
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], 60)
            if not r:
                self.p.kill()
                raise self._died("hang")
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                raise self._died(None)
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l

    def _died(self, why):
        rc = self.p.wait()
        self.err.seek(0)
        e = self.err.read().decode("latin1")
        if why is None:
            for ev in reversed(self.log):
                if ev.get("ev") == "die":
                    why = ev["why"]
                    break
        if why is None:
            why = "crash"
            for l in e.splitlines():
                if "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assertion" in l:
                    why = "crash"
                    break
        keep = [l for l in e.splitlines() if "ERROR:" in l or "runtime error" in l or "SUMMARY" in l
                or "Assertion" in l or l.strip().startswith("#")][:14]
        self.log.append({"ev": "died", "why": why, "rc": rc})
        if why == "hang":
            global hangs
            hangs += 1
        self.start()
        return Died(why, " | ".join(x.strip() for x in keep)[:1800])

    mark = 0               # 1: commands and results are in the log, with the blocks they allocate and free

    def reset(self):
        self.log = []
        self.script = []
        self.on_ask = None
        self.nctx0 = self.nctx
        r = self.cmd("reset")
        if self.mark:
            self.cmd("acct")
        return r

    def cmd(self, line):
        self.script.append(line)
        if line.startswith("ctx "):
            self.nctx += 1
        if self.mark:
            self.log.append({"ev": "cmd", "line": line})
        try:
            self.p.stdin.write((line + "\n").encode())
        except (BrokenPipeError, OSError):
            raise self._died(None)
        evs = []
        pend = None
        last = None
        while True:
            l = self._line()
            if pend is not None:
                l = pend + l
                pend = None
            k = l.find(b'{"ev"', 1)
            if k > 0 and l.startswith(b'{"r"'):
                # an event raised while the result line was being printed
                pend, l = l[:k], l[k:]
            d = json.loads(l)
            if "r" in d:
                if self.mark:
                    self.log.append({"ev": "res", "r": d})
                return evs, d
            if "ask" in d:
                r = self.on_ask(last) if self.on_ask else 1
                self.script.append("ret %d" % r)
                try:
                    self.p.stdin.write(b"ret %d\n" % r)
                except (BrokenPipeError, OSError):
                    raise self._died(None)
                continue
            evs.append(d)
            self.log.append(d)
            if d["ev"] == "part":
                continue
            last = d

    def c(self, *a):
        """cmd with automatic encoding: bytes/None are hex encoded, rest via str."""
        t = []
        for x in a:
            t.append(hx(x) if x is None or isinstance(x, (bytes, bytearray)) else str(x))
        return self.cmd(" ".join(t))

"""Deterministic simulation core of the Python worlds: the protocol of sim.cpp.

A run is a function of its choice stream and executes in a forked child."""
import hashlib
import json
import os
import resource
import signal
import struct
import sys
import time


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, cls, msg)
        self.cls, self.msg = cls, msg


def _mix(a, b):
    return int.from_bytes(hashlib.blake2b(struct.pack("<QQ", a & (2**64 - 1), b & (2**64 - 1)), digest_size=8).digest(), "little")


class Run:
    def __init__(self, prop, seed=None, choices=None, log_fd=None):
        self.replay = choices
        self.state = _mix(seed or 0, _mix(int.from_bytes(prop.encode()[:8], "little"), 77))
        self.choices, self.spans, self.open = [], [], []
        self.counters, self.faults, self.feats = {}, {}, set()
        self.log, self.sig, self.steps_, self.nontriv = [], 0, 0, False
        self.dig = hashlib.blake2b(digest_size=8)
        self.fd = log_fd

    def _next(self):
        self.state = (self.state + 0x9E3779B97F4A7C15) & (2**64 - 1)
        z = self.state
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & (2**64 - 1)
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & (2**64 - 1)
        return z ^ (z >> 31)

    def draw(self, n):
        if n <= 1:
            return 0
        i = len(self.choices)
        if self.replay is not None:
            v = self.replay[i] % n if i < len(self.replay) else 0
        else:
            v = self._next() % n
        self.choices.append(v)
        self.sig = _mix(self.sig, v)
        return v

    def draw_w(self, ws):
        v = self.draw(sum(ws))
        for i, w in enumerate(ws):
            if v < w:
                return i
            v -= w
        return len(ws) - 1

    def chance(self, a, b):
        return self.draw(b) >= b - a

    def real(self, lo, hi, steps=64):
        return lo + (hi - lo) * self.draw(steps + 1) / steps

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def span(self):
        return _Span(self)

    def say(self, msg):
        self.dig.update(msg.encode())
        self.log.append(msg)
        self.flush()

    def observe(self, data):
        self.dig.update(data)

    def probe(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def feature(self, *what):
        self.feats.add(int.from_bytes(hashlib.blake2b(repr(what).encode(), digest_size=8).digest(), "little"))

    def steps(self, n=1):
        self.steps_ += n

    def violation(self, cls, msg):
        raise Violation(cls, msg)

    def result(self, status, cls="", msg=""):
        if status == 2:
            self.say("VIOLATION %s: %s" % (cls, msg))
        return {"status": status, "cls": cls, "msg": msg, "digest": self.dig.hexdigest(), "choices": self.choices, "spans": [[b, e if e is not None else len(self.choices), d] for b, e, d in self.spans],
                "log": "\n".join(self.log) + "\n", "faults": self.faults, "counters": self.counters, "features": list(self.feats), "sig": self.sig, "steps": self.steps_, "nontriv": self.nontriv}

    def flush(self):
        # what is known if the process stops here
        if self.fd is not None:
            b = json.dumps(self.result(0)).encode()
            os.pwrite(self.fd, struct.pack("<I", len(b)) + b, 0)


class _Span:
    def __init__(self, r):
        self.r = r

    def __enter__(self):
        self.i = len(self.r.spans)
        self.r.spans.append([len(self.r.choices), None, len(self.r.open)])
        self.r.open.append(self.i)

    def __exit__(self, *a):
        self.r.spans[self.i][1] = len(self.r.choices)
        self.r.open.pop()


def run_child(prop, fn, seed=None, choices=None):
    fd = _FD
    os.pwrite(fd, struct.pack("<I", 0), 0)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CPU, (20, 21))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            n = os.open("/dev/null", os.O_WRONLY)
            os.dup2(n, 1)
            if not os.environ.get("SIM_STDERR"):
                os.dup2(n, 2)
            r = Run(prop, seed, choices, fd)
            try:
                fn(r)
                o = r.result(1)
            except Violation as v:
                o = r.result(2, v.cls, v.msg)
            b = json.dumps(o).encode()
            os.pwrite(fd, struct.pack("<I", len(b)) + b, 0)
            os._exit(0)
        except BaseException as e:
            import traceback
            os.write(2, traceback.format_exc().encode())
            os._exit(9)
    _, st = os.waitpid(pid, 0)
    n = struct.unpack("<I", os.pread(fd, 4, 0))[0]
    o = json.loads(os.pread(fd, n, 4)) if n else Run(prop, seed, choices).result(0)
    if o["status"] == 0:
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 9:
            raise RuntimeError("harness error in run %s" % seed)
        sg = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        o["status"] = 2
        o["cls"] = "no-progress" if sg in (signal.SIGXCPU, signal.SIGKILL) else "process-terminated" if sg else "process-exited"
        o["msg"] = "the interpreter was stopped by signal %d" % sg if sg else "the interpreter exited"
        o["log"] += "VIOLATION %s: %s\n" % (o["cls"], o["msg"])
    o["run"] = seed or 0
    return o


def emit(o):
    print(json.dumps({k: o[k] for k in ("run", "status", "cls", "msg", "digest", "choices", "spans", "log", "faults")}), flush=True)


_FD = None


def main(worlds):
    global _FD
    a = sys.argv
    import tempfile
    f = tempfile.TemporaryFile()
    _FD = f.fileno()
    if a[1] == "list":
        print("\n".join(worlds))
    elif a[1] == "explore":
        prop, base, first, stride, maxr, secs = a[2], int(a[3]), int(a[4]), int(a[5]), int(a[6]), float(a[7])
        dig = len(a) > 8
        t0 = time.time()
        s = {"summary": 1, "runs": 0, "nontrivial": 0, "violations": 0, "steps": 0, "counters": {}, "faults": {}, "known": []}
        feats, sigs, seen, samples, i = set(), set(), set(), 0, first
        while s["runs"] < maxr and time.time() - t0 < secs:
            seed = _mix(base, i) & 0xffffffffffff
            i += stride
            o = run_child(prop, worlds[prop], seed)
            s["runs"] += 1
            for k in ("counters", "faults"):
                for n, c in o[k].items():
                    s[k][n] = s[k].get(n, 0) + c
            feats.update(o["features"])
            s["steps"] += o["steps"]
            if o["nontriv"]:
                s["nontrivial"] += 1
                sigs.add(o["sig"])
            if dig:
                print(json.dumps({"digest": "%d %s" % (seed, o["digest"])}))
            if o["status"] == 2:
                s["violations"] += 1
                if len(seen) < 6 and o["cls"] not in seen:
                    seen.add(o["cls"])
                    emit(o)
                if s["violations"] >= 12:
                    break
            elif o["nontriv"] and samples < 2 and first == 0:
                samples += 1
                print(json.dumps({"sample": o["log"][:1500], "seed": seed}))
        s["features"] = ["%x" % x for x in feats]
        s["sigs"] = ["%x" % x for x in sigs]
        print(json.dumps(s), flush=True)
    elif a[1] == "seed":
        emit(run_child(a[2], worlds[a[2]], int(a[3])))
    elif a[1] == "replay":
        for line in sys.stdin:
            emit(run_child(a[2], worlds[a[2]], None, [int(x) for x in line.replace(",", " ").split()]))
    else:
        sys.exit(2)

"""Common machinery: building the executor, running it, running TLC."""
import json, os, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
EXE = os.path.join(HARNESS, "target", "release", "ilv")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 2)


class ToolError(Exception):
    """The machinery failed; nothing is known about the property."""


class Violation(Exception):
    def __init__(self, kind, detail, **case):
        super().__init__(detail)
        self.kind, self.detail, self.case = kind, detail, case


def build():
    fp = os.path.join(HARNESS, "target", "release", ".fingerprint")
    if os.path.isdir(fp):       # never trust time stamps of the tree under test
        for d in os.listdir(fp):
            if d.startswith("il2-iltags-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=HARNESS,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(HARNESS, "target"), RUSTFLAGS="-Awarnings"))
    if p.returncode or not os.path.exists(EXE):
        raise ToolError("build failed:\n" + p.stdout[-4000:])


# ------------------------------------------------------------------ executor
MEM = 6 << 30


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_one(sessions, scratch, hang=150):
    """Runs sessions in one executor; yields (session, events)."""
    p = subprocess.Popen([EXE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=dict(os.environ, ILV_SCRATCH=scratch), preexec_fn=_limits)
    state = dict(last=time.time(), hung=False, err=b"")
    lines = []

    def feed():
        try:
            for s in sessions:
                p.stdin.write(json.dumps(s).encode() + b"\n")
            p.stdin.close()
        except (BrokenPipeError, OSError):
            pass

    def errs():
        for l in p.stderr:
            state["err"] = (state["err"] + l)[-4000:]

    def watch():
        while p.poll() is None:
            if time.time() - state["last"] > hang:
                state["hung"] = True
                p.kill()
                return
            time.sleep(0.5)
    ts = [threading.Thread(target=f, daemon=True) for f in (feed, errs, watch)]
    for t in ts:
        t.start()
    for l in p.stdout:
        state["last"] = time.time()
        lines.append(l)
    rc = p.wait()
    for t in ts:
        t.join(5)
    err = state["err"].decode("utf8", "replace")
    if rc == 0 and len(lines) == len(sessions):
        return [(s, json.loads(l)["ev"]) for s, l in zip(sessions, lines)]
    if "HARNESS-ERROR" in err or rc == 2:
        raise ToolError("executor: " + err)
    at = sessions[len(lines)] if len(lines) < len(sessions) else sessions[-1]
    if state["hung"]:
        raise Violation("hang", f"no result after {hang} s", session=at)
    if rc == -9:
        raise ToolError("executor was killed: " + err)
    raise Violation("crash", f"process ended with status {rc}: {err.strip()[:600]}", session=at)


def execute(sessions, scratch, par=CPUS):
    """Runs all sessions, several executors side by side; keeps the order."""
    n = len(sessions)
    if not n:
        return []
    par = max(1, min(par, (n + 19) // 20))
    parts = [sessions[i::par] for i in range(par)]
    with ThreadPoolExecutor(par) as ex:
        rs = list(ex.map(lambda q: run_one(q, scratch), parts))
    out = [None] * n
    for i, r in enumerate(rs):
        for j, x in enumerate(r):
            out[i + j * par] = x
    return out


# ----------------------------------------------------------------------- TLC
def tlc(work, module, cfg, env=None, workers=4, heap="6g", timeout=800, on_line=None, args=()):
    """Runs TLC on spec/<module>.tla with the given configuration text."""
    os.makedirs(work, exist_ok=True)
    tag = f"{module}-{time.monotonic_ns()}"
    c = os.path.join(work, tag + ".cfg")
    with open(c, "w") as f:
        f.write(cfg)
    meta = os.path.join(work, tag + ".states")
    tmp = os.path.join(work, tag + ".tmp")
    os.makedirs(tmp)
    cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + tmp, "-cp", TLA,
           "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", c, *args,
           module + ".tla"]
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         env=dict(os.environ, **(env or {})))
    killer = threading.Timer(timeout, p.kill)
    killer.start()
    out = []
    vec = []
    try:
        for l in p.stdout:
            if l.startswith('"VEC '):
                vec.append(json.loads(json.loads(l)[4:]))
            elif len(out) < 200000:
                out.append(l)
        rc = p.wait()
    finally:
        killer.cancel()
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
    text = "".join(out)
    if rc == -9:
        raise ToolError(f"TLC on {module} ran out of time or memory")
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return dict(module=module, ok="Model checking completed. No error has been found" in text, text=text,
                states=dist, generated=gen, vec=vec, secs=round(time.time() - t0, 1))


TRACE_CFG = """CONSTANTS
  WB = 256
  WN = 8
INIT Init
NEXT Next
INVARIANT Accepted
CHECK_DEADLOCK FALSE
"""


def validate(work, module, executed, name, workers=4):
    """Checks recorded sessions against a trace specification.
    Returns the TLC result; raises Violation for the first rejected event."""
    f = os.path.join(work, f"{name}-{time.monotonic_ns()}.ndjson")
    n = 0
    with open(f, "w") as o:
        for s, ev in executed:
            x = {k: v for k, v in s.items() if k != "ops"}
            x["ev"] = ev
            n += len(ev)
            o.write(json.dumps(x) + "\n")
    r = tlc(work, module, TRACE_CFG, env=dict(TRACE=f), workers=workers)
    os.remove(f)
    if r["ok"]:
        # every event of every session was consumed
        if r["states"] < n + len(executed):
            raise ToolError(f"{module}: {r['states']} states for {n} events of {len(executed)} sessions")
        r["events"] = n
        return r
    text = r["text"]
    ss = re.findall(r"/\\ s = (\d+)", text)
    ll = re.findall(r"/\\ l = (-?\d+)", text)
    if not ss or not ll or "java.lang.OutOfMemoryError" in text:
        raise ToolError(f"TLC on {module}:\n" + text[-3000:])
    s, ev = executed[int(ss[-1]) - 1]
    i = abs(int(ll[-1])) - 1
    e = ev[i] if i < len(ev) else None
    st = re.findall(r"/\\ st = (.*?)(?:\n\n|\Z)", text, re.S)
    what = "rejected" if "Invariant Accepted is violated" in text else "cannot be explained"
    raise Violation("trace", f"event {i + 1} of a {s['su']} session is {what} by {module}", session=s, index=i, event=e,
                    state=(st[-1][:4000] if st else ""))


def subset(x, e):
    """x, where it says something, agrees with e."""
    if isinstance(x, dict):
        return isinstance(e, dict) and all(k in e and subset(v, e[k]) for k, v in x.items())
    if isinstance(x, list):
        return isinstance(e, list) and len(x) == len(e) and all(subset(a, b) for a, b in zip(x, e))
    if isinstance(x, str) and x.startswith("!"):
        return isinstance(e, str) and e != x[1:]
    return type(x) is type(e) and x == e


def compare(executed):
    """Sessions whose operations carry the results the model prescribes (field x)."""
    n = 0
    for s, ev in executed:
        if len(ev) != len(s["ops"]) and s["su"] not in ("lim", "mw", "thr"):
            raise ToolError("executor dropped events")
        for i, (o, e) in enumerate(zip(s["ops"], ev)):
            n += 1
            if e.get("panic") != "" or not subset(o.get("x", {}), e):
                raise Violation("vector", f"operation {i + 1}: the model prescribes another result", session=s, index=i,
                                event=e, expected=o.get("x"))
    return n

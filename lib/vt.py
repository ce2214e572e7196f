"""Shared machinery of the checks: building the harness, running drivers and TLC, reporting."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = f"{VERIF}/spec"
HARNESS = f"{VERIF}/harness"
TARGET = os.environ.get("VERIF_TARGET", f"{VERIF}/.build/target")
OUT = f"{VERIF}/out"
TLCJAR = "/opt/veriftools/tla/tla2tools.jar"


class ToolError(Exception):
    """Something other than the code under test went wrong"""


class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what = what
        self.replay = replay


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=None, env=None, cwd=None, check=True, stdin=None):
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    try:
        p = subprocess.run([str(x) for x in cmd], timeout=timeout, env=e, cwd=cwd, input=stdin, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError(f"timed out: {' '.join(map(str, cmd))}")
    if check and p.returncode != 0:
        raise ToolError(f"{' '.join(map(str, cmd))}: exit {p.returncode}\n{p.stdout[-3000:]}\n{p.stderr[-6000:]}")
    return p


def build(*packages):
    """Builds harness binaries against /repo's current working tree"""
    cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", f"{HARNESS}/Cargo.toml", ]
    for p in packages:
        cmd += ["-p", p]
    sh(cmd, timeout=1700, env={
        "CARGO_TARGET_DIR": TARGET,
        "RUSTFLAGS": "--cfg bfffs_verif --cfg have_fspacectl -Awarnings",
        "CARGO_NET_OFFLINE": "true",
    })


def bin(name):
    return f"{TARGET}/debug/{name}"


def outdir(pid, fresh=True):
    d = f"{OUT}/{pid}"
    if fresh and os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d, exist_ok=True)
    return d


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


class TlcResult:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = None
        for m in STATES.finditer(out.replace(",", ",")):
            pass
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0

    @property
    def ok(self):
        return self.rc == 0

    def printed(self, tag):
        """The JSON values printed with PrintT(<<tag, ToJson(x)>>)"""
        r = []
        pre = f'<<"{tag}", '
        for line in self.out.splitlines():
            if line.startswith(pre) and line.endswith(">>"):
                r.append(json.loads(json.loads(line[len(pre):-2])))
        return r


def tlc(module, cfg=None, workers=None, env=None, timeout=800, args=(), meta=None, heap="4g", dfs=False, deadlock=False, tolerate=False):
    """Runs TLC on spec/<module>.tla with spec/<cfg>"""
    meta = meta or f"{OUT}/tlc-{module}-{os.getpid()}-{time.monotonic_ns()}"
    os.makedirs(meta, exist_ok=True)
    cfg = cfg or f"{module}.cfg"
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
           f"-Djava.io.tmpdir={meta}"]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cp = ":".join([TLCJAR] + ["/opt/veriftools/tla/" + f for f in os.listdir("/opt/veriftools/tla")
                              if f.endswith(".jar") and f != "tla2tools.jar"])
    cmd += ["-cp", cp, f"-DTLA-Library={SPEC}", "tlc2.TLC", "-config", cfg if cfg.startswith("/") else f"{SPEC}/{cfg}",
            "-metadir", meta, "-workers", str(workers or 1), "-noGenerateSpecTE", "-nowarning"]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(args)
    cmd.append(module if module.startswith("/") else f"{SPEC}/{module}.tla")
    try:
        p = sh(cmd, timeout=timeout, env=env, check=False, cwd=SPEC)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult(p.stdout + p.stderr, p.returncode)
    # 0: no error; 10..13: a violation of what the spec says (assumption, deadlock, safety, liveness)
    if p.returncode not in (0, 10, 11, 12, 13) and not (tolerate and "evaluating" in r.out):
        raise ToolError(f"TLC on {module}: exit {p.returncode}\n{r.out[-5000:]}")
    return r


def design(module, cfg=None, workers=4, timeout=800, heap="8g", args=(), env=None):
    """Model checks a design spec.  It doesn't depend on the code, so that any failure is an error of ours."""
    r = tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, args=args, env=env)
    if not r.ok:
        raise ToolError(f"the specification {module} ({cfg}) does not satisfy its own properties:\n{r.out[-6000:]}")
    return r


def ndjson(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def validate(module, trace, cfg=None, timeout=800, env=None, dfs=False, heap="4g"):
    """Checks a recorded trace against a trace specification.

    Returns (TlcResult, None) if it is accepted, else (TlcResult, index of the first unexplained line, 0-based)."""
    e = {"TRACE": trace}
    if env:
        e.update(env)
    r = tlc(module, cfg, workers=1, env=e, timeout=timeout, dfs=dfs, heap=heap, tolerate=True)
    if r.rc not in (0, 10, 11, 12, 13):
        # An event of a shape or with values that the specification has no meaning for, like a panic
        m = re.findall(r"^(?:/\\ )?l = (\d+)$", r.out, re.M)
        if not m:
            raise ToolError(f"trace validation with {module} failed\n{r.out[-5000:]}")
        return r, int(m[-1]) - 1
    m = re.findall(r'<<"MATCHED", (\d+), (\d+)>>', r.out)
    if not m:
        raise ToolError(f"trace validation with {module} gave no verdict\n{r.out[-5000:]}")
    got, want = map(int, m[-1])
    if got == want:
        if not r.ok:
            raise ToolError(f"trace accepted, but TLC failed\n{r.out[-5000:]}")
        return r, None
    return r, got


def split_episodes(rows, first):
    """Splits the lines of a trace into episodes that begin with an event named `first`"""
    eps = []
    for i, r in enumerate(rows):
        if r.get("e") == first or not eps:
            eps.append((i, []))
        eps[-1][1].append(r)
    return eps


def known_findings():
    p = f"{VERIF}/known-findings.txt"
    res = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                res.append(m.groups())
    return res


class Check:
    """One run of one property's check"""

    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.dir = outdir(pid)
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def design(self, module, cfg=None, **kw):
        r = design(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        log(f"spec {module} {cfg or ''}: {r.distinct} distinct states, {r.generated} transitions: properties hold")
        return r

    def drive(self, cmd, trace, timeout=200, final=True):
        """Runs a driver of the real code, which records what that does.

        The drivers contain panics of the code under test.  If one hangs or dies all the same, that's a violation,
        for none of what they ask may do that."""
        try:
            p = subprocess.run([str(x) for x in cmd], timeout=timeout, text=True, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, errors="replace", env=dict(os.environ, RUST_BACKTRACE="0"))
        except subprocess.TimeoutExpired:
            p = None
        if p is not None and p.returncode == 0:
            return p
        rows = []
        if os.path.exists(trace):
            for line in open(trace, errors="replace").read().splitlines()[-200:]:
                try:
                    rows.append(json.loads(line))
                except ValueError:
                    pass
        if p is not None and p.returncode == 3:
            raise ToolError(f"{cmd}: {p.stderr[-3000:]}")
        what = "hangs" if p is None else f"dies (exit {p.returncode})"
        self.violate(f"the real code {what} after {json.dumps(rows[-1])[:300] if rows else 'nothing'}",
                     {"cmd": [str(x) for x in cmd], "stderr": p.stderr[-3000:] if p else "", "last_events": rows})
        if final:
            self.finish()

    def histories(self, jobs, modules, width=6, timeout=400, heap="4g", each=None):
        """Records and validates several histories at a time.

        jobs: (command, trace).  each: function(rows) for every trace.  Returns the number of episodes."""
        lock = threading.Lock()
        eps = 0

        def one(job):
            nonlocal eps
            cmd, tr = job
            if self.violations:
                return
            p = self.drive(cmd, tr, timeout=timeout, final=False)
            if p is None:
                return
            for m in modules:
                if self.violations:
                    return
                n = self.trace(m, tr, heap=heap)
            with lock:
                eps += n
                if each:
                    each(ndjson(tr))
            if not self.violations and not os.environ.get("VERIF_KEEP"):
                os.unlink(tr)
        with concurrent.futures.ThreadPoolExecutor(width) as ex:
            for f in [ex.submit(one, j) for j in jobs]:
                f.result()
        return eps

    def trace(self, module, path, first="new", cfg=None, known=None, **kw):
        """Validates a trace of many episodes, naming every episode that the spec doesn't explain.

        known: function(episode rows, offending row) -> key or None, which names a listed finding"""
        rows = ndjson(path)
        eps = split_episodes(rows, first)
        n = len(eps)
        listed = {k for (p, k, _) in known_findings() if p == self.pid}
        hit = set()
        rejected = 0
        cur = path
        while True:
            r, bad = validate(module, cur, cfg=cfg, **kw)
            self.states += r.distinct
            self.transitions += r.generated
            if bad is None:
                break
            k = max(i for i, (s, _) in enumerate(eps) if s <= bad)
            start, ep = eps[k]
            off = bad - start
            key = known(ep, ep[off]) if known else None
            rejected += 1
            if key is not None and key in listed:
                hit.add(key)
            else:
                self.violate(f"the real code's history is not a behaviour of {module}: first unexplained event is "
                             f"{json.dumps(ep[off])[:400]} (event {off} of the episode)",
                             {"spec": module, "offending_index": off, "offending": ep[off], "episode": ep})
                break
            # Go on with the rest
            rest = [x for (_, e) in eps[k + 1:] for x in e]
            if not rest:
                break
            cur = f"{path}.{module}.rest"
            write_ndjson(cur, rest)
            eps = split_episodes(rest, first)
        for k in sorted(hit):
            desc = [d for (p, kk, d) in known_findings() if p == self.pid and kk == k][0]
            log(f"KNOWN-FINDING: property={self.pid} {desc}")
        self.traces += n - rejected
        log(f"trace {os.path.basename(path)}: {n} episodes, {len(rows)} events, validated against {module}"
            + (f", {rejected} rejected" if rejected else ""))
        if not self.samples and eps:
            self.samples.append(eps[min(1, len(eps) - 1)][1][:12])
        return n

    def violate(self, what, data=None):
        i = len(self.violations)
        rp = f"{self.dir}/violation-{i}.json"
        with open(rp, "w") as f:
            json.dump({"property": self.pid, "what": what, "seed": self.seed, "data": data}, f, indent=1)
        self.violations.append((what, rp))

    def finish(self, **cov):
        c = dict(self.cov)
        c.update(cov)
        if self.level == "model_checking":
            c.setdefault("states", self.states)
            c.setdefault("transitions", self.transitions)
            c.setdefault("traces_validated_against_impl", self.traces)
        c.setdefault("samples", self.samples[:3])
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": c,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for what, rp in self.violations[:5]:
            log(f"{self.pid}: {what}")
            log(f"VIOLATION property={self.pid} replay={rp}")
        log(f"{self.pid}: {'VIOLATED' if self.violations else 'held'} "
            f"({self.states} states, {self.traces} traces, {ev['wall_s']} s)")
        sys.exit(1 if self.violations else 0)

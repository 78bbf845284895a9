"""Shared machinery: running TLC, building harnesses from /repo, walking a transition graph."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, collections
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OPTION_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
os.makedirs(BUILD, exist_ok=True)


class CheckError(Exception):
    """The machinery itself failed: neither held nor violated."""


class Violation(Exception):
    def __init__(self, what, detail=""):
        super().__init__(what)
        self.what, self.detail = what, detail


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


# ------------------------------------------------------------------ TLC
def spec_text():
    return b"".join(read(os.path.join(SPEC, f)) for f in sorted(os.listdir(SPEC)) if f.endswith((".tla", ".cfg")))


_tlc_locks = collections.defaultdict(threading.Lock)


def tlc(module, cfg, *a, **kw):
    """One TLC run per module and configuration at a time: others of the same take its result from the cache."""
    if not kw.get("cache", True):
        return _tlc(module, cfg, *a, **kw)
    with _tlc_locks[module, cfg]:
        return _tlc(module, cfg, *a, **kw)


def _tlc(module, cfg, workers=1, extra=(), timeout=800, env=None, tag="", mem="4g", cwd=None, cache=True):
    """Runs TLC; returns dict(out, states, transitions, edges).  A spec that fails is an error of the machinery."""
    key = sha(spec_text(), module, cfg, repr(extra), tag, repr(env))
    d = os.path.join(BUILD, "tlc")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{module}-{cfg}-{key}.out")
    if cache and os.path.exists(path):
        out = read(path).decode()
    else:
        meta = tempfile.mkdtemp(prefix=f"meta-{key}-", dir=d)
        cmd = ["java", f"-Xmx{mem}", "-Xss16m", "-XX:+UseParallelGC", "-cp", TLAJAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd or SPEC)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {module} {cfg}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout.decode(errors="replace")
        if cache is not True:
            return {"out": out, "rc": r.returncode}
        if r.returncode != 0:
            tail = "\n".join(l for l in out.splitlines() if not l.startswith('"EDGE'))[-3000:]
            raise CheckError(f"TLC failed on {module} {cfg} rc={r.returncode}\n{tail}")
        with tempfile.NamedTemporaryFile("w", dir=d, delete=False) as f:
            f.write(out)
        os.replace(f.name, path)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    res = {"out": out, "generated": int(m.group(1)) if m else 0, "states": int(m.group(2)) if m else 0}
    return res


def tlc_edges(module, cfg, **kw):
    r = tlc(module, cfg, **kw)
    edges = []
    for l in r["out"].splitlines():
        if l.startswith('"EDGE '):
            edges.append(json.loads(json.loads(l)[5:]))
    if not edges:
        raise CheckError(f"no transitions from {module} {cfg}")
    r["edges"] = edges
    return r


def tlc_rows(module, cfg, mark="ROW ", **kw):
    """For decision-table modules: every PrintT("ROW " \\o ToJson(..)) line."""
    r = tlc(module, cfg, **kw)
    rows = []
    for l in r["out"].splitlines():
        if l.startswith('"' + mark):
            rows.append(json.loads(json.loads(l)[len(mark):]))
    if not rows:
        raise CheckError(f"no rows from {module} {cfg}")
    r["rows"] = rows
    return r


# ------------------------------------------------------------------ walks
def key(s):
    return json.dumps(s, sort_keys=True)


def cover_walk(edges, init, rng, limit=None, pick=None):
    """A walk from init taking every edge at least once (edges: list of dict s,a,t)."""
    out = collections.defaultdict(list)
    for n, e in enumerate(edges):
        e["_s"], e["_t"] = key(e["s"]), key(e["t"])
        out[e["_s"]].append(n)
    for v in out.values():
        rng.shuffle(v)
    todo = {k: list(v) for k, v in out.items()}
    succ = {k: {} for k in out}
    for k, v in out.items():
        for n in v:
            succ[k].setdefault(edges[n]["_t"], n)
    cur, walk, left = key(init), [], len(edges)
    while left:
        if todo.get(cur):
            n = todo[cur].pop()
            left -= 1
            walk.append(edges[n])
            cur = edges[n]["_t"]
        else:
            prev, q, goal = {cur: None}, collections.deque([cur]), None
            while q:
                x = q.popleft()
                if todo.get(x):
                    goal = x
                    break
                for t, n in succ.get(x, {}).items():
                    if t not in prev:
                        prev[t] = (x, n)
                        q.append(t)
            if goal is None:
                break
            path = []
            while prev[goal]:
                x, n = prev[goal]
                path.append(edges[n])
                goal = x
            path.reverse()
            walk += path
            cur = path[-1]["_t"]
        if limit and len(walk) >= limit:
            break
    return walk


def random_walk(edges, init, rng, steps):
    out = collections.defaultdict(list)
    for e in edges:
        e["_s"], e["_t"] = key(e["s"]), key(e["t"])
        out[e["_s"]].append(e)
    cur, walk = key(init), []
    for _ in range(steps):
        if not out.get(cur):
            break
        e = rng.choice(out[cur])
        walk.append(e)
        cur = e["_t"]
    return walk


# ------------------------------------------------------------------ builds
CXX = {"g++": "g++", "clang++": "clang++"}
SAN = {True: ["-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
       "a": ["-g1", "-fsanitize=address", "-fno-omit-frame-pointer"], "u": ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"], False: []}
BASE = ["-O0", "-w"]


def header_key():
    d = os.path.join(REPO, "include", "opt")
    return sha(*[read(os.path.join(d, f)) for f in sorted(os.listdir(d))])


def harness_key():
    return sha(*[read(os.path.join(HARNESS, f)) for f in sorted(os.listdir(HARNESS))])


_hk = {}


def compile_one(src, cxx="g++", std="17", flags=(), san=True, timeout=600, compile_only=False):
    """Builds a harness against /repo/include; returns (path or None, log)."""
    if "h" not in _hk:
        _hk["h"], _hk["k"] = header_key(), harness_key()
    srcp = src if os.path.isabs(src) else os.path.join(HARNESS, src)
    cmdtail = [f"-std=c++{std}", *BASE, *SAN[san], f"-I{REPO}/include", f"-I{HARNESS}", *flags]
    k = sha(_hk["h"], _hk["k"], read(srcp), cxx, *cmdtail)
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    exe, logp = os.path.join(d, k), os.path.join(d, k + ".log")
    if os.path.exists(exe):
        return exe, ""
    if os.path.exists(logp):
        return None, read(logp).decode(errors="replace")
    tmp = exe + f".tmp{os.getpid()}-{threading.get_ident()}"
    cmd = [CXX[cxx], *cmdtail, srcp] + (["-fsyntax-only"] if compile_only else ["-o", tmp])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"compiler timed out: {' '.join(cmd)}")
    log = r.stdout.decode(errors="replace")
    if r.returncode in (-9, 137, -11) or (r.returncode and re.search("Killed signal|out of memory|cannot allocate memory|No space left", log, re.I)):
        raise CheckError("compiler was killed: " + " ".join(cmd))
    if r.returncode:
        with open(logp, "w") as f:
            f.write(" ".join(cmd) + "\n" + log)
        return None, " ".join(cmd) + "\n" + log
    if compile_only:
        open(tmp, "w").close()
    os.replace(tmp, exe)
    return exe, ""


_sanity = {}


def header_compiles():
    """Is the header itself usable at all?  (If not the tree does not build: an error, not a violation.)"""
    if "v" not in _sanity:
        d = os.path.join(BUILD, "gen")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "sanity.cpp")
        with open(p, "w") as f:
            f.write("#include <opt/option.hpp>\nint main() { opt::option<int> a{1}; return *a - 1; }\n")
        _sanity["v"] = compile_one(p, san=False)
    return _sanity["v"]


def compile_all(jobs):
    """jobs: list of dict(src, cxx, std, flags, ...) -> list of exe paths; a harness that stops compiling while the
    header itself compiles uses documented interface that is gone or ill-formed: a violation."""
    def one(j):
        j = dict(j)
        name = j.pop("name", "")
        exe, log = compile_one(**j)
        return name, exe, log
    with ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(one, jobs))
    bad = [(n, l) for n, e, l in rs if e is None]
    if bad:
        exe, log = header_compiles()
        if exe is None:
            raise CheckError("the header does not compile: " + log[-2000:])
        n, l = bad[0]
        errs = [x for x in l.splitlines() if "error" in x][:6]
        raise Violation(f"documented interface no longer compiles ({n})", l[:200] + "\n...\n" + "\n".join(errs) + "\n" + l[-3000:])
    return [e for _, e, _ in rs]


RUNENV = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:halt_on_error=1", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}


HUNG = []


def run(cmd, timeout=300, stdin=None):
    """A program of the quick tier that runs for minutes instead of seconds hangs; once one did, the rest is not run."""
    if TIER != "thorough":
        timeout = min(timeout, 200)
    if HUNG:
        return 124, "", "not run: another program did not end"
    e = dict(os.environ)
    e.update(RUNENV)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, input=stdin)
    except subprocess.TimeoutExpired as x:
        HUNG.append(cmd)
        return 124, (x.stdout or b"").decode(errors="replace"), "timeout"
    return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")

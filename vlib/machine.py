"""Replay of a state machine specification (EDGE lines) on harness variants: one step per script line, one JSON line per step."""
from common import *
from core import parse_lines, brief, context

CONFIGS = [("g++", "17", (), True), ("clang++", "20", (), False)]
THOROUGH = [("g++", "17", (), True), ("g++", "20", ("-O2",), True), ("clang++", "17", ("-O2",), False), ("clang++", "20", (), True), ("g++", "23", ("-O1",), False),
            ("g++", "17", ("-O2", "-DNDEBUG"), False)]


def default_compare(e, o):
    if o.get("err"):
        return o["err"]
    if o["t"] != e["t"]:
        return f"state {o['t']}, specified {e['t']}"
    if o["res"] != e["a"]["res"]:
        return f"result {o['res']}, specified {e['a']['res']}"


def machine_check(module, src, variants, cfg, init=None, configs=None, compare=default_compare, ops=None, steps=30000, timeout=600, thorough=None, pass_variant=False, keep=None):
    """variants: list of (name, profile, flags); cfg(profile) -> TLC configuration file."""
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, steps_replayed=0, samples=[])
    rng = random.Random(SEED)
    d = os.path.join(BUILD, "scripts")
    os.makedirs(d, exist_ok=True)
    profs = sorted({v[1] for v in variants})
    specs = {}

    def load(p):
        out = []
        for deep in ([False, True] if TIER == "thorough" else [False]):
            c = cfg(p, deep)
            if c:
                out.append(tlc_edges(module, c, mem="4g"))
        return out
    with ThreadPoolExecutor(4) as ex:
        specs = dict(zip(profs, ex.map(load, profs)))
    scripts = {}
    for p in profs:
        scripts[p] = []
        for n, r in enumerate(specs[p]):
            cov["states"] += r["states"]
            edges = [e for e in r["edges"] if (ops is None or ops(e["a"]["op"])) and (keep is None or keep(p, e))]
            cov["transitions"] += len(edges)
            w = cover_walk(edges, init(p, n) if init else edges[0]["s"], rng)
            if len({id(e) for e in w}) < len(edges):
                raise CheckError(f"{module} {p}: only {len({id(e) for e in w})} of {len(edges)} transitions are reachable")
            # the same transitions again, reached by other histories
            w = w + random_walk(edges, w[-1]["t"], rng, steps if TIER == "thorough" else min(steps, 4000))
            path = os.path.join(d, f"{module}-{p}-{n}-{os.getpid()}.txt")
            with open(path, "w") as f:
                f.write("".join(e["a"]["op"] + "".join(f" {x}" for x in e["a"]["args"]) + "\n" for e in w))
            scripts[p].append((w, path, n))
    jobs, meta = [], []
    for name, p, fl in variants:
        for cxx, std, f2, san in ((thorough or THOROUGH) if TIER == "thorough" else (configs(name) if callable(configs) else configs) or CONFIGS):
            jobs.append(dict(name=f"{name} {cxx} c++{std} {' '.join(f2)}", src=src, cxx=cxx, std=std, flags=(*fl, *f2), san=san))
            meta.append((name, p, f"[{cxx} c++{std} {' '.join(f2)}]"))
    exes = compile_all(jobs)
    todo = [(x, n, lab, w, path, k) for x, (n, p, lab) in zip(exes, meta) for w, path, k in scripts[p]]

    def one(x):
        exe, name, lab, w, path, k = x
        rc, out, err = run([exe, path, str(k)], timeout=timeout)
        obs = parse_lines(out)
        for n, e in enumerate(w):
            where = f"{name} {lab}: {e['a']['op']}{e['a']['args']} from {e['s']}"
            if n >= len(obs) or "t" not in obs[n]:
                return Violation(f"{where}: crashed rc={rc} " + brief(err), context(w, n) + "\n" + err[-3000:])
            if obs[n].get("skip"):
                raise CheckError(f"the harness does not know {where}")
            v = compare({**e, "variant": name} if pass_variant else e, obs[n])
            if v:
                return Violation(f"{where}: {v}", context(w, n))
        if rc:
            return Violation(f"{name} {lab}: ended with rc={rc} " + brief(err), err[-3000:])
        if len(obs) > len(w) and obs[-1].get("err"):
            return Violation(f"{name} {lab}: at the end: {obs[-1]['err']}")
        return len(w)
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(one, todo))
    finally:
        for l in scripts.values():
            for _, path, _ in l:
                os.unlink(path)
    for v in rs:
        if isinstance(v, Violation):
            raise v
    cov["traces_validated_against_impl"] = len(rs)
    cov["steps_replayed"] = sum(rs)
    cov["variants"] = len(variants)
    w0 = scripts[profs[0]][0][0]
    cov["samples"] = [f"{e['s']} --{e['a']['op']}{e['a']['args']}--> {e['t']} res={e['a'].get('res')}" for e in w0[:: max(1, len(w0) // 6)]][:6]
    return cov

"""Replay of spec/OptionNest.tla on nested options (P06)."""
import glob
from common import *
from core import parse_lines, brief

CONFIGS = [("g++", "17", (), True), ("clang++", "20", (), False)]
THOROUGH = [("g++", "17", (), True), ("g++", "20", (), True), ("clang++", "17", ("-O2",), False), ("clang++", "20", (), True), ("g++", "20", ("-O2",), False), ("g++", "23", ("-O1",), True)]


def nest_types(inc):
    r = []
    for l in open(os.path.join(HARNESS, inc)):
        m = re.match(r'N\("([^"]+)", .*, (\d+), "(\w+)", (\d+), (\d)\)', l)
        if m:
            r.append(dict(name=f"{m[1]}_{m[2]}", D=int(m[2]), kind=m[3], L=int(m[4]), led=m[5] == "1"))
    return r


def nest_check():
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, steps_replayed=0, samples=[])
    rng = random.Random(SEED)
    d = os.path.join(BUILD, "scripts")
    os.makedirs(d, exist_ok=True)
    groups = sorted(os.path.basename(p) for p in glob.glob(os.path.join(HARNESS, "n[0-9][0-9].inc")))
    tys = {g: nest_types(g) for g in groups}
    need = sorted({(t["kind"], t["D"], t["L"]) for g in groups for t in tys[g]})

    def spec(k):
        return tlc_edges("OptionNest", f"OptionNest_{k[0]}_{k[1]}_{k[2]}.cfg", mem="2g")
    with ThreadPoolExecutor(JOBS) as ex:
        specs = dict(zip(need, ex.map(spec, need)))
    scripts = {}
    for k in need:
        r = specs[k]
        cov["states"] += r["states"]
        cov["transitions"] += len(r["edges"])
        key2 = k[:2]
        if key2 in scripts:
            continue
        w = cover_walk(r["edges"], [0, 0], rng)
        if TIER == "thorough":
            w = w + random_walk(r["edges"], w[-1]["t"], rng, 30000)
        path = os.path.join(d, f"nest-{k[0]}-{k[1]}-{os.getpid()}.txt")
        with open(path, "w") as f:
            f.write("".join(e["a"]["op"] + "".join(f" {x}" for x in e["a"]["args"]) + "\n" for e in w))
        scripts[key2] = (w, path)
    jobs, meta = [], []
    for g in groups:
        for cxx, std, fl, san in (THOROUGH if TIER == "thorough" else CONFIGS):
            jobs.append(dict(name=f"{g} {cxx} c++{std}", src="nest.cpp", cxx=cxx, std=std, flags=(f'-DNEST_TYPES="{g}"', *fl), san=san))
            meta.append((tys[g], f"[{cxx} c++{std} {' '.join(fl)}]"))
    exes = compile_all(jobs)
    todo = [(x, t, lab) for x, (ts, lab) in zip(exes, meta) for t in ts]

    def one(x):
        exe, ty, lab = x
        w, path = scripts[ty["kind"], ty["D"]]
        rc, out, err = run([exe, ty["name"], path], timeout=600)
        obs = parse_lines(out)
        for n, e in enumerate(w):
            a = e["a"]
            where = f"{ty['name']} {lab}: step {n} {a['op']}{a['args']} from {e['s']}"
            if n >= len(obs) or "t" not in obs[n]:
                return Violation(f"{where}: crashed rc={rc} " + brief(err), err[-3000:])
            o = obs[n]
            if o.get("skip"):
                return Violation(f"the harness does not know {a['op']}")
            if o.get("err"):
                return Violation(f"{where}: {o['err']}")
            if o["t"] != e["t"]:
                return Violation(f"{where}: contents {o['t']}, specified {e['t']}")
            if o["res"] != a["res"]:
                return Violation(f"{where}: result {o['res']}, specified {a['res']}")
            if ty["led"] and o["live"] != sum(1 for c in e["t"] if c >= 100):
                return Violation(f"{where}: {o['live']} live objects with contents {e['t']}")
        end = obs[-1]
        if rc or (ty["led"] and (end.get("live") or end.get("err"))):
            return Violation(f"{ty['name']} {lab}: ended with rc={rc} {end} " + brief(err), err[-3000:])
        return len(w)
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(one, todo))
    finally:
        for _, p in scripts.values():
            os.unlink(p)
    for v in rs:
        if isinstance(v, Violation):
            raise v
    cov["traces_validated_against_impl"] = len(rs)
    cov["steps_replayed"] = sum(rs)
    cov["nested_types"] = len({t["name"] for g in groups for t in tys[g]})
    w = scripts["keep", 3][0]
    cov["samples"] = [f"{e['s']} --{e['a']['op']}{e['a']['args']}--> {e['t']}" for e in w[:6]]
    return cov


# (type, depth, TLC configuration, thorough only)
DEEP = [("bool", "bool", 258, "258_254", False), ("int", "int", 258, "258_0", False), ("string", "std::string", 258, "258_255", False),
        ("double", "double", 258, "258_256", False), ("ref", "int&", 258, "258_256", False), ("unique_ptr", "std::unique_ptr<int>", 258, "258_255m", True),
        ("pair", "std::pair<int,float>", 258, "258_256", True), ("vector", "std::vector<int>", 258, "258_255", True), ("TF", "TF", 258, "258_0", True),
        ("ptr", "int*", 514, "514_512", True), ("enum", "EAuto", 250, "250_240", False)]
# a few levels of every kind of payload that has some
FEW = ["std::u32string_view", "std::u16string_view", "std::wstring", "std::vector<double>", "std::vector<bool>", "std::complex<float>", "float", "PtrPtr", "FnPtr", "MFPtr", "MDPtr", "Poly", "PolyD", "Pad8", "Pad16", "Pad32", "PadB", "EAuto", "EHid", "EOpen", "EOld",
       "std::reference_wrapper<int>", "std::pair<int,bool>", "std::tuple<char,double>", "std::array<bool,3>", "TupleLike", "TupleLikeM"]
DEEP += [("few " + t, t, 9, "9_100", False) for t in FEW] + [("few " + t, t, 9, "9_100m", False) for t in ("std::unique_ptr<long>", "std::unique_ptr<short>")]
DEEP += [("enum with start", "EStart", 9, "9_6", False), ("signed enum with start", "EStartS", 9, "9_8", False), ("enum with start and end", "EStartEnd", 14, "14_11", False)]


def deep_check():
    """spec/NestDeep.tla: nesting past the number of spare states of the payload, and past those of the flag."""
    from machine import machine_check

    def cmp(e, o):
        if o.get("err"):
            return o["err"]
        if o["t"] != e["t"]:
            return f"content {o['t']}, specified {e['t']}"
    vs = [(f"deep-{n}", c, (f"-DDEEP_T={t}", f"-DDEEP_D={D}", "-ftemplate-depth=9000")) for n, t, D, c, th in DEEP if TIER == "thorough" or not th]
    # clang++ needs tens of gigabytes for this depth
    return machine_check("NestDeep", "deep.cpp", vs, cfg=lambda p, deep: None if deep else f"NestDeep_{p}.cfg", init=lambda p, n: 0,
                         configs=lambda n: [("g++", "17", (), False), ("clang++", "20", (), "u")] if "few" in n or "start" in n else [("g++", "17", (), False)], compare=cmp, steps=3000, thorough=[("g++", "17", (), False), ("g++", "20", ("-O1",), False)])

"""Replay of spec/OptionCore.tla (and OptionFault.tla) behaviours on opt::option<T> for every payload type."""
import glob, os, random, json
from concurrent.futures import ThreadPoolExecutor
from common import *

PROFILES = ["mark_full", "mark_moveonly", "mark_noassign", "mark_immovable", "keep_full"]


# payloads with a bool inside have only two distinct values
TWO_VALUED = {"bool", "opt_bool", "opt_opt_bool", "pair_int_bool", "tuple_ibf", "tuple_TN", "array_bool"}


def groups():
    return sorted(os.path.basename(p) for p in glob.glob(os.path.join(HARNESS, "g[0-9][0-9].inc")))


def types_of(inc):
    r, guard = [], None
    for l in open(os.path.join(HARNESS, inc)):
        g = re.match(r"#ifndef (\w+)|#endif", l)
        if g:
            guard = g.group(1)
        m = re.match(r'X\("([^"]+)", .*, "([^"]*)"\)', l)
        if m:
            mk, cap, led, evm = m.group(2).split()
            r.append(dict(name=m.group(1), prof=f"{mk}_{cap}", ledger=led, ev=evm, guard=guard))
    return r


def script_of(walk):
    return "".join(e["a"]["op"] + "".join(f" {x}" for x in e["a"]["args"]) + "\n" for e in walk)


def norm(x):
    return json.dumps(x)


def compare(e, o, ty, fields):
    """Returns a description of the first difference between the step the spec allows and the one observed."""
    a = e["a"]
    if o.get("skip"):
        return f"the harness does not know {a['op']}"
    n = len(e["t"])
    if "err" in o and "err" in fields:
        return o["err"]
    if "t" in fields and o["t"][:n] != e["t"]:
        return f"options hold {o['t'][:n]}, specified {e['t']}"
    if "t" in fields and any(o["t"][n:]):
        return f"an untouched option changed: {o['t']}"
    if "res" in fields and o["res"] != a["res"]:
        return f"result {o['res']}, specified {a['res']}"
    if "call" in fields:
        c = a["call"]
        if o["call"] != [c["n"], c["arg"], c["cat"]]:
            return f"callback (runs, argument, category) {o['call']}, specified {[c['n'], c['arg'], c['cat']]}"
    if "ev" in fields and ty["ev"] != "-":
        tr = ty["ev"][2:]           # 1: that special member is trivial, hence not counted
        v = a["ev"]
        vc, cc, ca, ma, mc = o["ev"]
        if vc != v["vc"]:
            return f"{vc} value constructions, specified {v['vc']}"
        if tr[0] == "0" and cc != v["cc"]:
            return f"{cc} copy constructions, specified {v['cc']}"
        if tr[1] == "0" and ca != v["ca"]:
            return f"{ca} copy assignments, specified {v['ca']}"
        if tr[2] == "0" and not v["mc"][0] <= mc <= v["mc"][1]:
            return f"{mc} move constructions, specified {v['mc']}"
        if tr[3] == "0" and not v["ma"][0] <= ma <= v["ma"][1]:
            return f"{ma} move assignments, specified {v['ma']}"
    if "live" in fields and ty["ledger"] in ("ledger", "ledger2"):
        k = 2 if ty["ledger"] == "ledger2" else 1
        if o["live"] != a["live"] * k:
            return f"{o['live']} live objects, specified {a['live'] * k}"
    return None


def parse_lines(out):
    r = []
    for l in out.splitlines():
        if l.startswith("{"):
            try:
                r.append(json.loads(l))
            except ValueError:
                r.append({"err": "unreadable output", "bad": True})
    return r


def replay_one(exe, ty, walk, script, fields, label, outdir):
    rc, out, err = run([exe, ty["name"], script], timeout=600)
    obs = parse_lines(out)
    for n, e in enumerate(walk):
        if n >= len(obs) or "t" not in obs[n]:
            what = "crashed" if rc else "stopped"
            brief = "; ".join(l for l in err.splitlines() if "ERROR" in l or "runtime error" in l or "SUMMARY" in l)[:300]
            raise Violation(f"option<{ty['name']}> {label}: {what} in step {n} {e['a']['op']}{e['a']['args']} from {e['s']}: rc={rc} {brief}", context(walk, n) + "\n" + err[-3000:])
        d = compare(e, obs[n], ty, fields)
        if d:
            raise Violation(f"option<{ty['name']}> {label}: {e['a']['op']}{e['a']['args']} from {e['s']}: {d}", context(walk, n))
    end = obs[-1] if obs else {}
    if rc != 0:
        brief = "; ".join(l for l in err.splitlines() if "ERROR" in l or "runtime error" in l or "SUMMARY" in l)[:300]
        raise Violation(f"option<{ty['name']}> {label}: ended with rc={rc}: {brief}", err[-3000:])
    if "live" in fields and ty["ledger"] != "-" and (end.get("live") != 0 or end.get("err")):
        raise Violation(f"option<{ty['name']}> {label}: objects left alive or destroyed twice at the end: {end}")
    return len(walk)


def context(walk, n):
    """The steps that lead to the failing one, replayable on the real code."""
    return "history (tail):\n" + "\n".join(f"  {e['s']} --{e['a']['op']} {e['a']['args']}--> {e['t']}" for e in walk[max(0, n - 12):n + 1])


# (compiler, standard, flags, sanitizers)
THOROUGH = [("g++", "17", (), True), ("g++", "20", (), True), ("g++", "23", ("-O2",), False), ("g++", "17", ("-O2",), True), ("clang++", "17", (), True), ("clang++", "20", ("-O2",), True),
            ("clang++", "17", ("-O2",), False), ("g++", "17", ("-DOPTION_USE_PFR=0", "-DNO_PFR"), False), ("g++", "20", ("-DOPTION_USE_BUILTIN_TRAITS=0", "-DNO_BUILTIN_TRAITS"), False)]
DEFAULT = [("g++", "17", (), True), ("clang++", "20", (), False)]


def core_check(fields, ops=None, want=lambda ty: True, module="OptionCore", src="core.cpp", profiles=PROFILES, configs=None, walks=True):
    """Cover every transition of the specification on every payload type; thorough adds a deeper instance and long random behaviours."""
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    specs = {}
    for p in profiles:
        r = tlc_edges(module, f"{module}_{p}.cfg")
        cov["states"] += r["states"]
        specs[p] = [r["edges"]]
        if TIER == "thorough":
            d = tlc_edges(module, f"{module}_{p}_deep.cfg")
            cov["states"] += d["states"]
            specs[p].append(d["edges"])
    rng = random.Random(SEED)
    d = os.path.join(BUILD, "scripts")
    os.makedirs(d, exist_ok=True)
    scripts = {}
    for p, el in specs.items():
        scripts[p] = []
        scripts[p, 2] = []
        for k, two, edges in [(k, two, e) for k, e in enumerate(el) for two in (False, True)]:
            n = len(edges[0]["s"])
            if two:
                if k == 0:
                    scripts[p, 2].append(scripts[p][0])
                    continue
                edges = [e for e in edges if 3 not in e["s"] and 3 not in e["t"] and (e["a"]["op"] in SLOT2 or 3 not in e["a"]["args"][1:])]
            if ops:
                keep = [e for e in edges if e["a"]["op"] in ("emplace", "reset") or ops(e["a"]["op"])]
            else:
                keep = edges
            w = cover_walk(keep, [0] * n, rng)
            # the same transitions again, reached by other histories
            w = w + walk_from(keep, w, rng, 20000 if TIER == "thorough" else 1500)
            path = os.path.join(d, f"{module}-{p}-{k}-{int(two)}-{os.getpid()}-{sha(sorted(fields), SEED)}.txt")
            with open(path, "w") as f:
                f.write(script_of(w))
            scripts[(p, 2) if two else p].append((w, path))
            cov["transitions"] += 0 if two else len(keep)
    jobs, meta = [], []
    for inc in groups():
        tys = [t for t in types_of(inc) if want(t) and t["prof"] in scripts]
        if not tys:
            continue
        for cxx, std, fl, san in (THOROUGH if TIER == "thorough" else configs or DEFAULT):
            jobs.append(dict(name=f"{inc} {cxx} c++{std} {' '.join(fl)}", src=src, cxx=cxx, std=std, flags=(f'-DCORE_TYPES="{inc}"', *fl), san=san))
            meta.append(([t for t in tys if not t["guard"] or f"-D{t['guard']}" not in fl], f"[{cxx} c++{std} {' '.join(fl)}]"))
    exes = compile_all(jobs)
    todo = []
    for exe, (tys, lab) in zip(exes, meta):
        for t in tys:
            for w, path in scripts[(t["prof"], 2) if t["name"] in TWO_VALUED else t["prof"]]:
                todo.append((exe, t, w, path, lab))

    def one(x):
        exe, t, w, path, lab = x
        try:
            return replay_one(exe, t, w, path, fields, lab, d), None
        except Violation as v:
            return 0, v
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(one, todo))
    finally:
        for l in scripts.values():
            for _, path in l:
                if os.path.exists(path):
                    os.unlink(path)
    for n, v in rs:
        if v:
            raise v
    cov["traces_validated_against_impl"] = len(rs)
    cov["steps_replayed"] = sum(n for n, _ in rs)
    cov["payload_types"] = len({x[1]["name"] for x in todo})
    p0 = next(iter(scripts))
    cov["samples"] = [f"{e['s']} --{e['a']['op']}{e['a']['args']}--> {e['t']} res={e['a']['res']}" for e in scripts[p0][0][0][:5]]
    return cov


def walk_from(edges, w, rng, steps):
    if not w:
        return []
    return random_walk(edges, w[-1]["t"], rng, steps)


# ------------------------------------------------------------------ recorded histories (spec/OptionTrace.tla)
SLOT2 = {"ctor_copy", "ctor_move", "copy_assign", "move_assign", "swap", "swap_free", "take_into"}
NOSELF = SLOT2 - {"copy_assign"}


def random_history(ops, rng, steps, slots=3, vals=3):
    """Calls chosen without the specification (ops: name -> number of arguments)."""
    names = sorted(ops)
    r = []
    for _ in range(steps):
        op = rng.choice(names)
        a = [rng.randint(1, slots)]
        if ops[op] > 1:
            if op in SLOT2:
                a.append(rng.choice([x for x in range(1, slots + 1) if x != a[0] or op not in NOSELF]))
            elif op == "take_if" or op.startswith(("has_value_and_", "filter_", "and_then_")):
                a.append(rng.randint(0, 1))
            elif op.startswith("or_else_"):
                a.append(rng.randint(0, vals))
            else:
                a.append(rng.randint(1, vals))
        r.append((op, a))
    return r


def trace_check(steps=250, configs=None, want=lambda ty: True):
    """Histories recorded from the real code are behaviours of OptionCore, decided by TLC."""
    rng = random.Random(SEED + 1)
    d = os.path.join(BUILD, "scripts")
    os.makedirs(d, exist_ok=True)
    ops = {}
    for p in PROFILES:
        ops[p] = {e["a"]["op"]: len(e["a"]["args"]) for e in tlc_edges("OptionCore", f"OptionCore_{p}.cfg")["edges"]}
    jobs, meta = [], []
    for inc in groups():
        tys = [t for t in types_of(inc) if want(t)]
        if not tys:
            continue
        for cxx, std, fl, san in configs or DEFAULT:
            jobs.append(dict(name=f"{inc} {cxx} c++{std} {' '.join(fl)}", src="core.cpp", cxx=cxx, std=std, flags=(f'-DCORE_TYPES="{inc}"', *fl), san=san))
            meta.append(([t for t in tys if not t["guard"] or f"-D{t['guard']}" not in fl], f"[{cxx} c++{std} {' '.join(fl)}]"))
    exes = compile_all(jobs)
    todo = []
    for exe, (tys, lab) in zip(exes, meta):
        for t in tys:
            h = random_history(ops[t["prof"]], rng, steps, vals=2 if t["name"] in TWO_VALUED else 3)
            path = os.path.join(d, f"trace-{t['name']}-{len(todo)}-{os.getpid()}.txt")
            with open(path, "w") as f:
                f.write("".join(op + "".join(f" {x}" for x in a) + "\n" for op, a in h))
            todo.append((exe, t, h, path, lab))

    def record(x):
        exe, t, h, path, lab = x
        rc, out, err = run([exe, t["name"], path, "guarded"], timeout=600)
        os.unlink(path)
        obs = parse_lines(out)
        tr = []
        if t["ev"] != "-":
            tr = ["vc"] + [k for k, c in zip(("cc", "ca", "mc", "ma"), t["ev"][2:]) if c == "0"]
        led = {"ledger": 1, "ledger2": 2}.get(t["ledger"], 0)
        recs = [dict(op="begin")]
        for n, (op, a) in enumerate(h):
            if n >= len(obs) or not ("t" in obs[n] or "left" in obs[n]):
                return t, lab, recs, Violation(f"option<{t['name']}> {lab}: crashed in step {n} {op}{a} of a random history: rc={rc} " + brief(err), err[-3000:])
            o = obs[n]
            if "left" in o:
                continue
            if o.get("skip"):
                raise CheckError(f"the harness does not know {op} for {t['name']}")
            if o.get("err"):
                return t, lab, recs, Violation(f"option<{t['name']}> {lab}: {op}{a} in a random history: {o['err']}", "\n".join(f"{r.get('op')} {r.get('args')} -> {r.get('t')}" for r in recs[-40:]))
            recs.append(dict(op=op, args=a, t=o["t"], res=o["res"], call=o["call"], ev=o["ev"], live=o["live"], tr=tr, led=led))
        if rc:
            return t, lab, recs, Violation(f"option<{t['name']}> {lab}: a random history ended with rc={rc} " + brief(err), err[-3000:])
        return t, lab, recs, None
    with ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(record, todo))
    for *_, v in rs:
        if v:
            raise v
    chunks = []
    for p in PROFILES:
        mine = [r for r in rs if r[0]["prof"] == p]
        for k in range(0, len(mine), 40):
            chunks.append((p, mine[k:k + 40]))

    def judge(c):
        p, mine = c
        recs = [(r, t, lab) for t, lab, l, _ in mine for r in l]
        with tempfile.NamedTemporaryFile("w", dir=d, prefix="trace-", suffix=".ndjson", delete=False) as f:
            f.write("".join(json.dumps(r) + "\n" for r, _, _ in recs))
        try:
            res = tlc("OptionTrace", f"OptionTrace_{p}.cfg", env={"RECORD": f.name}, cache=False, mem="2g")
        finally:
            os.unlink(f.name)
        m = re.search(r"(\d+) distinct states found, 0 states left", res["out"])
        if res["rc"] or not m:
            raise CheckError("TLC could not judge the recording\n" + res["out"][-2000:])
        n = int(m.group(1)) - 1
        if n < len(recs):
            r, t, lab = recs[n]
            raise Violation(f"option<{t['name']}> {lab}: a recorded history is not a behaviour of OptionCore: {r['op']}{r['args']} from {recs[n - 1][0].get('t')} gave {r['t']} {r['res']} callback {r['call']} operations {r['ev']} live {r['live']}",
                            "\n".join(f"{x[0].get('op')} {x[0].get('args')} -> {x[0].get('t')}" for x in recs[max(0, n - 12):n + 1]))
        return n
    with ThreadPoolExecutor(4) as ex:
        n = sum(ex.map(judge, chunks))
    return dict(recorded_histories=len(rs), recorded_steps=n)


# ------------------------------------------------------------------ faults (spec/OptionFault.tla)
THROWING = {"TF", "TN", "TM", "TMN", "TI", "TIN", "TA", "AggT", "AggN", "pair_TF_int", "opt_TF", "opt_opt_TN", "array_TN", "tuple_TN", "vec_TF"} | {f"{k}{m:05b}" for k in "QN" for m in range(32)}      # every combination of trivial and throwing special members


def fault_script(edges, throwing, rng):
    """Independent cases: contents, which call of T (or callback) throws, the operation."""
    lines, cases = [], []
    for e in edges:
        a = e["a"]
        v = a["ev"]
        total = v["vc"] + v["cc"] + v["ca"] + min(v["ma"][1], 3) + min(v["mc"][1], 3)
        arms = [f"~arm {k}" for k in range(min(total, 4))] if throwing else []
        if a["call"]["n"]:
            arms.append("~armcb")
        for m in arms:
            for i, c in enumerate(e["s"]):
                lines.append(f"~set {i + 1} {c}")
            lines.append(m)
            lines.append(a["op"] + "".join(f" {x}" for x in a["args"]))
            cases.append((e, m))
    return "\n".join(lines) + "\n", cases


def fault_check():
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, faults_fired=0, samples=[])
    rng = random.Random(SEED)
    d = os.path.join(BUILD, "scripts")
    os.makedirs(d, exist_ok=True)
    scripts = {}
    for p in PROFILES:
        r = tlc_edges("OptionFault", f"OptionFault_{p}{'_deep' if TIER == 'thorough' else ''}.cfg")
        small = tlc_edges("OptionFault", f"OptionFault_{p}.cfg") if TIER == "thorough" else r
        cov["states"] += r["states"]
        cov["transitions"] += len(r["edges"])
        for th in (False, True):
            for two in (False, True):
                text, cases = fault_script((small if two else r)["edges"], th, rng)
                path = os.path.join(d, f"fault-{p}-{th}-{two}-{os.getpid()}.txt")
                with open(path, "w") as f:
                    f.write(text)
                scripts[p, th, two] = (path, cases)
    jobs, meta = [], []
    configs = [("g++", "17", (), True), ("clang++", "20", (), False)]
    if TIER == "thorough":
        configs = THOROUGH
    for inc in groups():
        tys = [t for t in types_of(inc) if t["name"] in THROWING or t["name"] in CBTYPES]
        if not tys:
            continue
        for cxx, std, fl, san in configs:
            jobs.append(dict(name=f"{inc} {cxx} c++{std}", src="core.cpp", cxx=cxx, std=std, flags=(f'-DCORE_TYPES="{inc}"', *fl), san=san))
            meta.append(([t for t in tys if not t["guard"] or f"-D{t['guard']}" not in fl], f"[{cxx} c++{std} {' '.join(fl)}]"))
    exes = compile_all(jobs)
    todo = [(x, t, *scripts[t["prof"], t["name"] in THROWING, t["name"] in TWO_VALUED], lab) for x, (tys, lab) in zip(exes, meta) for t in tys]

    def one(x):
        exe, ty, path, cases, lab = x
        rc, out, err = run([exe, ty["name"], path], timeout=600)
        obs = parse_lines(out)
        fired = 0
        for n, (e, m) in enumerate(cases):
            a = e["a"]
            where = f"option<{ty['name']}> {lab}: {a['op']}{a['args']} from {e['s']} with {m}"
            if n >= len(obs) or "t" not in obs[n]:
                return Violation(f"{where}: crashed rc={rc} " + brief(err), err[-3000:]), 0
            o = obs[n]
            if o.get("skip"):
                return Violation(f"the harness does not know {a['op']}"), 0
            if o.get("err"):
                return Violation(f"{where}: {o['err']}", json.dumps(o)), 0
            k = len(e["t"])
            if o.get("fired"):
                fired += 1
                if o["res"] != ["boom"]:
                    return Violation(f"{where}: the exception did not reach the caller unchanged: {o['res']}", json.dumps(o)), 0
                got, alts = o["t"][:k], e["alts"]
                if ty["name"] in TORN:      # T's own operation may be left half done: only whether there is an object is promised
                    got, alts = [c != 0 for c in got], [[c != 0 for c in x] for x in alts]
                if got not in alts:
                    return Violation(f"{where}: options hold {o['t'][:k]} after the exception, specified {e['alts']}", json.dumps(o)), 0
                want = sum(1 for c in o["t"] if c)
            else:
                if o["t"][:k] != e["t"]:
                    return Violation(f"{where}: options hold {o['t'][:k]}, specified {e['t']}", json.dumps(o)), 0
                if o["res"] != a["res"]:
                    return Violation(f"{where}: result {o['res']}, specified {a['res']}", json.dumps(o)), 0
                want = a["live"]
            if ty["ledger"] in ("ledger", "ledger2") and o["live"] != want * (2 if ty["ledger"] == "ledger2" else 1):
                return Violation(f"{where}: {o['live']} live objects for contents {o['t']}", json.dumps(o)), 0
        end = obs[-1] if obs else {}
        if rc or (ty["ledger"] != "-" and (end.get("live") or end.get("err"))):
            return Violation(f"option<{ty['name']}> {lab}: ended with rc={rc} {end} " + brief(err), err[-3000:]), 0
        return None, fired
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(one, todo))
    finally:
        for path, _ in scripts.values():
            os.unlink(path)
    for v, _ in rs:
        if v:
            raise v
    cov["traces_validated_against_impl"] = sum(len(x[3]) for x in todo)
    cov["faults_fired"] = sum(f for _, f in rs)
    cov["payload_types"] = len({x[1]["name"] for x in todo})
    cov["samples"] = [f"{e['s']} {m} {e['a']['op']}{e['a']['args']} -> one of {e['alts']}" for e, m in scripts["mark_full", True, False][1][:400:80]]
    return cov


TORN = {"pair_TF_int", "array_TN", "tuple_TN", "AggT", "AggN", "vec_TF"}
CBTYPES = {"string", "int", "opt_bool", "opt_ref", "uptr_int", "User", "IntPtr", "Pad8"}


def brief(err):
    return "; ".join(l for l in err.splitlines() if "ERROR" in l or "runtime error" in l or "SUMMARY" in l)[:300]

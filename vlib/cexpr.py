"""Constant evaluation: transitions of the state machine specifications as tables of rows that the compilers execute and the program repeats."""
from common import *
from core import brief

CAT = {"-": 0, "l": 1, "cl": 2, "r": 3, "cr": 4, "default": 5}
FLAGS = {"g++": ("-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=100000000"), "clang++": ("-fconstexpr-steps=1000000000",)}


def pad(l, n):
    l = [int(x) for x in l]
    if len(l) > n:
        raise CheckError(f"row too long: {l}")
    return "{" + ",".join(map(str, l + [0] * (n - len(l)))) + "}"


def text(op, args, s, t, res, call=(0, 0, 0)):
    return f'{{"{op}",{pad(args, 4)},{pad(s, 8)},{pad(t, 8)},{{{len(res)},{pad(res, 6)}}},{pad(call, 3)}}}'


def core_rows(cfg):
    def enc(r):
        k = r[0]
        return [{"void": 0, "self": 4000, "null": 5000}[k]] if k in ("void", "self", "null") else [{"opt": 1000, "val": 2000, "bool": 3000}[k] + int(r[1])]
    out = []
    for e in tlc_edges("OptionCore", cfg, mem="4g")["edges"]:
        a = e["a"]
        if a["res"][0] != "throw":
            r = enc(a["res"])
            out.append((e, text(a["op"], a["args"], e["s"], e["t"], [] if r == [0] else r, (a["call"]["n"], a["call"]["arg"], CAT[a["call"]["cat"]]))))
    return out


def rows_of(module, cfg, skip=(), keep=lambda e: True):
    return [(e, text(e["a"]["op"], e["a"]["args"], e["s"], e["t"], e["a"]["res"])) for e in tlc_edges(module, cfg, mem="4g")["edges"] if e["a"]["op"] not in skip and keep(e)]


def order_rows(nan):
    out = []
    for x in tlc_rows("Order", "Order.cfg", mem="4g")["rows"]:
        if x["k"] == "cmp" and (nan or 4 not in x["q"][1:]):
            e = {"s": x["q"][1:], "a": {"op": x["q"][0], "args": [], "res": [int(x["r"])]}, "t": []}
            out.append((e, text(x["q"][0], [], x["q"][1:], [], e["a"]["res"])))
    return out


MADE = {"ctor_inplace", "ctor_valr", "ctor_vall", "ctor_copy", "ctor_move", "make_option_t", "make_option_l", "make_option_r"}


def engages(e, slots):
    return any(not s and t for s, t in zip((list(e["s"]) + [0] * 8)[:slots], (list(e["t"]) + [0] * 8)[:slots]))


def c17(slots):
    """What C++17 can evaluate: no change of the active member of a union, no std::swap."""
    def f(e):
        op = e["a"]["op"]
        if slots == 0 and "swap" in op:
            return False
        if op.startswith("swap") and slots == 2 and 0 not in [e["s"][k - 1] for k in e["a"]["args"]]:
            return False
        return op in MADE or not engages(e, slots)
    return f


# g++ 13 does not subtract pointers to and past a member of a union in constant expressions
def GCC_ITER(e):
    return e["a"]["op"].split("_")[0] not in ("dist", "between")


def tables():
    core = lambda p: (lambda: core_rows(f"OptionCore_{p}.cfg"))
    alg = lambda p: (lambda: rows_of("Algebra", f"Algebra_{p}.cfg", {"set"}))
    st = lambda p: (lambda: rows_of("Structure", f"Structure_{p}.cfg", {"set"}))
    it = lambda p: (lambda: rows_of("Iter", f"Iter_{p}.cfg"))
    ref = lambda p: (lambda: rows_of("RefOption", f"RefOption_{p}.cfg", {"ctor_refw", "assign_refw"}))
    ac = lambda p: (lambda: rows_of("Access", f"Access_{p}.cfg", {"push", "pop", "setvar", "valueless"}, lambda e: p[:3] != "var" or e["s"][0]))
    T = {}
    for p in ("keep_full", "mark_full", "mark_moveonly", "mark_immovable", "mark_noassign"):
        T["core_" + p] = ("cx_core.hpp", core(p), 2)
    for p in ("keep_copy", "mark_copy", "mark_move"):
        T["alg_" + p] = ("cx_more.hpp", alg(p), 3)
    for p in ("keep", "mark", "mark_mo"):
        T["zip_" + p] = ("cx_more.hpp", st("zip_" + p), 3)
    for p in ("keep", "keep_both", "mark", "mark_both", "mark_mo", "mark_mo_both"):
        T["pair_" + p] = ("cx_more.hpp", st("pair_" + p), 0)
    for p in ("rw", "const"):
        T["iter_" + p] = ("cx_more.hpp", it(p), 1)
    for p in ("lref", "clref", "rref"):
        T["ref_" + p] = ("cx_more.hpp", ref(p), 0)
    for p in ("fix_keep", "fix_mark", "one_keep", "one_mark", "var_keep", "ptr_keep", "ptr_mark"):
        T[p] = ("cx_more.hpp", ac(p), 0)
    T["order"] = ("cx_more.hpp", lambda: order_rows(False), 0)
    T["order_nan"] = ("cx_more.hpp", lambda: order_rows(True), 0)
    return T


BOTH, C20 = ("17", "20"), ("20",)
ARR, PAIR, TUP = "std::array<int, 2>", "std::pair<int, short>", "std::tuple<int, int>"
# (rows, evaluator, standards)
LIST = [("core_keep_full", f"Core<{t}>", BOTH) for t in ("int", "char", "short", "En", "Pod", "Cls", "Cls2", ARR)]
LIST += [("core_keep_full", f"Core<{t}>", C20) for t in (PAIR, TUP, "Usr")]
LIST += [("core_mark_full", f"Core<{t}>", C20) for t in ("CT", "CTagg", "Own", "CTU")]
LIST += [("core_mark_moveonly", "Core<CTM>", C20), ("core_mark_immovable", "Core<CTI>", C20), ("core_mark_immovable", "Core<CTIN>", C20), ("core_mark_noassign", "Core<CTA>", C20)]
LIST += [("alg_keep_copy", f"Algebra<{t}>", BOTH) for t in ("int", "Cls2")] + [("alg_mark_copy", f"Algebra<{t}>", C20) for t in ("CT", "Own", "CTU")] + [("alg_mark_move", "Algebra<CTM>", C20)]
LIST += [("zip_keep", f"Zip<{t}>", BOTH) for t in ("int", "Cls")] + [("zip_mark", f"Zip<{t}>", C20) for t in ("CT", "Own")] + [("zip_mark_mo", "Zip<CTM>", C20)]
LIST += [("pair_keep", f"PairOf<{t}>", BOTH) for t in ("std::pair<int, long long>", "std::tuple<short, long long>")] + [("pair_keep_both", f"PairOf<{t}>", BOTH) for t in (ARR, "std::pair<Pod, Pod>")]
LIST += [("pair_mark", f"PairOf<{t}>", C20) for t in ("std::pair<CT, long long>", "std::tuple<Own, long long>")] + [("pair_mark_both", f"PairOf<{t}>", C20) for t in ("std::pair<Own, Own>", "std::tuple<CT, CT>")] + [("pair_mark_mo", "PairOf<std::pair<CTM, long long>>", C20)]
LIST += [("iter_rw", f"Iter<{t}>", BOTH) for t in ("int", "Pod")] + [("iter_rw", f"Iter<{t}>", C20) for t in ("CT", "Own", "CTU")] + [("iter_const", "Iter<const int>", BOTH)]
LIST += [("ref_lref", f"RefOpt<{t}>", BOTH) for t in ("int, int&, const int&", "RDer, RDer&, const RBase&")] + [("ref_clref", f"RefOpt<{t}>", BOTH) for t in ("int, const int&, const int&", "RDer, const RDer&, const RBase&")]
LIST += [("ref_rref", f"RefOpt<{t}>", BOTH) for t in ("int, int&&, const int&&", "RDer, RDer&&, RBase&&")]
LIST += [("order", f"Order<{t}>", BOTH) for t in ("int, short", "En, En")] + [("order", "Order<std::pair<int, short>, std::pair<int, short>>", C20), ("order", f"Order<{ARR}, {ARR}>", C20), ("order_nan", "Order<Half, Half>", BOTH)]
LIST += [("fix_keep", "Arr<int, 3>", BOTH), ("fix_mark", "Arr<Own, 3>", C20), ("one_keep", "Arr<Pod, 1>", BOTH), ("one_mark", "Arr<CTM, 1>", C20)]
LIST += [("var_keep", "Var<int, short, Pod>", BOTH), ("ptr_keep", "Ptr<int>", BOTH), ("ptr_mark", "Ptr<Own>", C20)]

CONFIGS = [("g++", ()), ("clang++", ())]
THOROUGH = [("g++", ()), ("clang++", ()), ("g++", ("-O2",)), ("clang++", ("-O2", "-DNDEBUG")), ("g++23", ())]


def constexpr_check(only=None):
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    tabs = tables()
    used = sorted({n for n, _, _ in LIST})
    with ThreadPoolExecutor(4) as ex:
        rows = dict(zip(used, ex.map(lambda n: tabs[n][1](), used)))
    jobs, meta = [], []
    for name, ev, stds in LIST:
        if only and not re.search(only, ev):
            continue
        for std in stds:
            for cxx, fl in THOROUGH if TIER == "thorough" else CONFIGS:
                st = std
                if name.startswith("ref") and TIER != "thorough" and (std, cxx) not in (("17", "g++"), ("20", "clang++")):
                    continue
                if cxx == "g++23":
                    if std != "20":
                        continue
                    cxx, st = "g++", "23"
                mine = [x for x in rows[name] if (std == "20" or c17(tabs[name][2])(x[0])) and (cxx == "clang++" or not name.startswith("iter") or GCC_ITER(x[0]))]
                if not mine:
                    raise CheckError(f"{name} {std}: no rows")
                body = f'#include <{tabs[name][0]}>\nusing namespace C;\nusing F = {ev};\nstatic constexpr Row rows[] = {{\n' + ",\n".join(t for _, t in mine) + "\n};\nstatic constexpr auto seen = all_of(rows, F{});\nint main() { return compare<F>(rows, seen); }\n"
                path = os.path.join(d, f"cx-{sha(body)}.cpp")
                if not os.path.exists(path):
                    with open(path + f".{os.getpid()}", "w") as f:
                        f.write(body)
                    os.replace(path + f".{os.getpid()}", path)
                jobs.append(dict(name=f"constant evaluation of {ev} {cxx} c++{st} {' '.join(fl)}", src=path, cxx=cxx, std=st, flags=(*FLAGS[cxx], *fl), san=False))
                meta.append((f"{ev} [{cxx} c++{st} {' '.join(fl)}]", name, mine))
    exes = compile_all(jobs)

    def one(x):
        exe, (lab, name, mine) = x
        rc, out, err = run([exe], timeout=120)
        try:
            o = json.loads(out.strip().splitlines()[-1])
        except (IndexError, ValueError):
            return Violation(f"{lab}: crashed rc={rc} " + brief(err), err[-2000:])
        if "row" in o:
            e = mine[o["row"]][0]
            where = f"{lab}: {e['a']['op']}{e['a']['args']} from {e['s']} in {o['at']}"
            if not o["known"]:
                return CheckError(f"the harness does not know {where}")
            return Violation(f"{where}: state {o['t']}, result {o['res'][:o['n']]}, call {o['call']}, checks {'hold' if o['ok'] else 'fail'}; specified state {e['t']}, result {e['a']['res']} {e['a'].get('call', '')}", json.dumps(e))
        if rc or o.get("rows") != len(mine):
            return Violation(f"{lab}: ended with rc={rc} " + brief(err), err[-2000:])
        return len(mine)
    with ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(one, zip(exes, meta)))
    for x in rs:
        if isinstance(x, Exception):
            raise x
    e0 = [x[0] for x in rows[used[0]][:: max(1, len(rows[used[0]]) // 6)]][:6]
    return dict(states=sum(len({key(e["s"]) for e, _ in v}) for v in rows.values()), transitions=sum(len(v) for v in rows.values()), rows_rule="transitions of the specifications evaluated as constant expressions and repeated at run time",
                traces_validated_against_impl=len(exes), steps_replayed=2 * sum(rs), samples=[f"{e['s']} --{e['a']['op']}{e['a']['args']}--> {e['t']} res={e['a'].get('res')}" for e in e0])


if __name__ == "__main__":
    print(constexpr_check(sys.argv[1] if len(sys.argv) > 1 else None))

"""spec/Niche.tla rows against real types (P05 leaves, P07 sizes and levels, P08 composites)."""
from common import *
from core import parse_lines, brief

LEAF = {"int": "int", "plain": "Q11111", "enum_sentinel": "ESent", "sentinel2": "S_2", "three": "N11111", "bool": "bool", "float": "float", "double": "double",
        "ptr": "IntPtr", "fnptr": "FnPtr", "string": "std::string", "u16string": "std::u16string", "string_view": "std::string_view", "vector": "std::vector<int>",
        "vector_bool": "std::vector<bool>", "unique_ptr": "std::unique_ptr<int>", "unique_arr": "std::unique_ptr<int[]>", "refw": "std::reference_wrapper<int>",
        "mdata": "MDPtr", "mfun": "MFPtr", "poly": "Poly", "pad8": "Pad8", "pad16": "Pad16", "enum_start": "EStart", "enum_start_signed": "EStartS",
        "enum_start_end": "EStartEnd", "long_double": "long double", "char": "char", "shared_ptr": "std::shared_ptr<int>", "member_ptr": "MB_p", "member_bool": "MB_b",
        "sentinel_f3": "SF_3", "sentinel_traits": "SentinelT", "enum_auto": "EAuto", "enum_open": "EOpen", "enum_hidden": "EHid",
        "string_stateful": "StrS", "string_empty_alloc": "StrE", "string_traits": "StrT", "view_traits": "ViewT", "vector_stateful": "VecS", "vector_empty_alloc": "VecE",
        "vecbool_stateful": "VecBS", "vecbool_empty_alloc": "VecBE", "unique_deleter": "PtrDE", "unique_deleter_stateful": "PtrDS", "unique_deleter_fn": "PtrDF",
        "enum_flags5": "EF5", "enum_flags8": "EF8", "enum_full": "EFull", "enum_none": "ENone", "enum_flags9": "EF9", "enum_flags10": "EF10", "enum_u64": "E64", "enum_char16": "EC", "enum_far": "EFar", "enum_far2": "EFar2", "enum_bool": "EBool", "enum_one": "EOne", "enum_signed": "ESigned", "enum_flags6": "EF6",
        "ptr_void": "void*", "ptr_cchar": "const char*", "ptr_ptr": "PtrPtr", "ptr_incomplete": "PtrInc", "ptr_array": "PtrArr", "ptr_poly": "const Poly*", "fnptr_noexcept": "FnNoex", "fnptr_variadic": "FnVar",
        "wstring": "std::wstring", "u32string": "std::u32string", "wstring_view": "std::wstring_view", "u32string_view": "std::u32string_view", "vector_vector": "VecVec", "vector_unique": "VecUniq",
        "unique_const": "std::unique_ptr<const int>", "unique_poly": "std::unique_ptr<Poly>", "poly_no_data": "PolyNo", "poly_two_bases": "PolyTwo", "poly_virtual_base": "PolyVB", "poly_final": "PolyD", "poly_packed": "PolyPk",
        "mfun_const": "MFConst", "mfun_incomplete": "MFInc", "mfun_virtual": "MFVirt", "mdata_incomplete": "MDInc", "mdata_const": "MDConst", "mdata_pointer": "MDPP",
        "refw_const": "std::reference_wrapper<const int>", "refw_fn": "RefFn", "refw_incomplete": "RefInc",
        "empty_class": "Nothing", "final_class": "FinalC", "union": "Uni", "opted_out": "OptedOut", "nullptr": "std::nullptr_t", "byte": "std::byte", "int128": "__int128", "float128": "__float128", "monostate": "std::monostate",
        "std_optional": "std::optional<bool>", "variant": "VarB", "list": "std::list<int>", "map": "MapII", "duration": "std::chrono::seconds", "pmr_string": "std::pmr::string", "pmr_vector": "std::pmr::vector<int>",
        "virtual_base_only": "VirtOnly", "weak_ptr": "std::weak_ptr<int>", "bitset": "std::bitset<4>", "empty_array": "Arr0",
        "const_bool": "const bool", "const_double": "const double", "const_pointer": "IntPtrC", "const_poly": "const Poly", "const_enum": "const EStart", "const_mdata": "MDPtrC"}
BUILTIN = {"enum_sentinel", "bool", "float", "double", "ptr", "fnptr", "string", "u16string", "string_view", "vector", "vector_bool", "unique_ptr", "unique_arr", "refw", "mdata", "mfun", "poly", "pad8", "pad16"}


class Gen:
    def __init__(self):
        self.aggs, self.decl = {}, []

    def cpp(self, t):
        k = t["k"]
        if k == "leaf":
            return LEAF[t["n"]]
        m = [self.cpp(x) for x in t["m"]]
        if k == "opt":
            return f"opt::option<{m[0]}>"
        if k == "array":
            return f"std::array<{m[0]}, {len(m)}>"
        if k == "complex":
            return f"std::complex<{m[0]}>"
        if k == "pair":
            return f"std::pair<{m[0]}, {m[1]}>"
        if k == "tuple":
            return f"std::tuple<{', '.join(m)}>"
        if k == "tlm":
            return f"TLM<{m[0]}, {m[1]}>"
        if k == "tlf":
            return f"TLF<{', '.join(m)}>"
        if k == "agg":
            key = tuple(m)
            if key not in self.aggs:
                n = f"Agg{len(self.aggs)}"
                self.aggs[key] = n
                names = ", ".join(f"e{i}" for i in range(len(m)))
                self.decl.append(f"struct {n} {{ {' '.join(f'{x} m{i};' for i, x in enumerate(m))} }};\n"
                                 f"#define COMMA_{n} {names}\nH_VAGG({n}, COMMA_{n}, COMMA_{n}, {', '.join(m)})\n")
            return self.aggs[key]
        raise CheckError(k)


def has(t, kinds):
    return t["k"] in kinds or any(has(x, kinds) for x in t.get("m", []))


def rows_of(sel):
    r = tlc_rows("Niche", "Niche_deep.cfg" if TIER == "thorough" else "Niche.cfg")
    rows = sorted((json.dumps(x, sort_keys=True) for x in r["rows"]))
    return [json.loads(x) for x in rows if sel(json.loads(x)["tree"])], r


def niche_check(sel, run, compare, configs):
    rows, r = rows_of(sel)
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    chunk = 24 if run else 60
    jobs, meta = [], []
    for c0 in range(0, len(rows), chunk):
        g = Gen()
        body = "".join(f"    row<{g.cpp(x['tree'])}>({c0 + i}, {'true' if run else 'false'});\n" for i, x in enumerate(rows[c0:c0 + chunk]))
        text = '#include "niche.hpp"\n' + "".join(g.decl) + "int main() {\n" + body + "}\n"
        p = os.path.join(d, f"niche-{sha(text)}.cpp")
        with open(p, "w") as f:
            f.write(text)
        for cxx, std, fl, san in configs:
            jobs.append(dict(name=f"types {c0}.. {cxx} c++{std}", src=p, cxx=cxx, std=std, flags=tuple(fl), san=san))
            meta.append((c0, len(rows[c0:c0 + chunk]), f"[{cxx} c++{std} {' '.join(fl)}]"))
    exes = compile_all(jobs)

    def one(x):
        exe, (c0, n, lab) = x
        rc, out, err = run_cmd([exe])
        got = {o["id"]: o for o in parse_lines(out) if "id" in o}
        total = 0
        for i in range(c0, c0 + n):
            name = Gen().cpp(rows[i]["tree"])
            if i not in got:
                return Violation(f"{show(rows[i]['tree'])} {lab}: crashed rc={rc} " + brief(err), err[-3000:])
            o = got[i]
            v = compare(rows[i], o)
            if v:
                return Violation(f"{show(rows[i]['tree'])} {lab}: {v}", json.dumps(rows[i]))
            total += o["cases"]
        if rc:
            return Violation(f"types {c0}.. {lab}: rc={rc} " + brief(err), err[-3000:])
        return total
    with ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(one, zip(exes, meta)))
    for v in rs:
        if isinstance(v, Violation):
            raise v
    return dict(states=len(r["rows"]), transitions=sum(rs) or len(rows), traces_validated_against_impl=len(rows) * len(configs), value_pairs=sum(rs),
                samples=[f"{show(x['tree'])}: levels {x['levels']}, flags by nesting {x['flags']}" for x in rows[:: max(1, len(rows) // 6)]])


run_cmd = run


def show(t):
    if t["k"] == "leaf":
        return LEAF[t["n"]]
    return t["k"] + "<" + ", ".join(show(x) for x in t["m"]) + ">"


def cmp_static(row, o):
    if o["levels"] != row["levels"]:
        return f"max_level {o['levels']}, specified {row['levels']}"
    if o["flags"] != row["flags"]:
        return f"sizes of the options nested 1..6 deep (0: sizeof(T), 1: T and a flag) {o['flags']}, specified {row['flags']}"


def cmp_run(row, o):
    return o["why"] or None


def deep_check():
    """Sizes of options nested hundreds deep (g++ only: clang's recursion does not get that far)."""
    rows = tlc_rows("Niche", "Niche_deep.cfg" if TIER == "thorough" else "Niche.cfg", mark="DEEP ")["rows"]
    rows = [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in rows})]
    body, seen = "", {}
    for i, r in enumerate(rows):
        t = "opt::option<int&>" if r["tree"]["n"] == "ref" else LEAF[r["tree"]["n"]]
        if r["tree"]["n"] == "ref" and r["n"] > 254:
            continue
        sz = f"sizeof({t})"
        f = t
        for _ in range(r["flags"]):
            f = f"Flagged<{f}>"
        body += f'  std::printf("%d %zu %zu\\n", {i}, sizeof(NO<{t}, {r["n"]}>::type), sizeof({f}));\n'
    body += '  std::printf("%d %zu %zu\\n", -1, sizeof(opt::option<int&>), sizeof(int*)); std::printf("%d %zu %zu\\n", -2, sizeof(opt::option<std::string&&>), sizeof(int*)); std::printf("%d %zu %zu\\n", -3, sizeof(opt::option<const bool&>), sizeof(int*));\n'
    text = '#include "niche.hpp"\nint main() {\n' + body + "}\n"
    p = os.path.join(BUILD, "gen", f"deep-{sha(text)}.cpp")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)
    exe, = compile_all([dict(name="deep nesting", src=p, std="17", san=False, flags=("-ftemplate-depth=3000",))])
    rc, out, err = run([exe])
    if rc:
        raise CheckError(err)
    n = 0
    for l in out.splitlines():
        i, got, want = map(int, l.split())
        n += 1
        if got != want:
            what = f"{rows[i]['n']} options nested over {show(rows[i]['tree'])} (specified: {rows[i]['flags']} flags)" if i >= 0 else "option of a reference"
            raise Violation(f"sizeof {what} is {got}, specified {want}")
    return n

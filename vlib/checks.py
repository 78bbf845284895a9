"""One function per property."""
from common import *
import core, nest, niche, patterns, machine, table, cexpr

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def opset(*prefixes):
    return lambda op: op.startswith(prefixes)


HEAP = {"string", "vec_TF", "vec_string", "uptr_TF", "uptr_int", "uptr_arr", "sptr_int", "vec_int", "deque_int", "User", "pair_uptr", "opt_string", "tuple_str"}


@check("P01")
def p01():
    r = core.core_check({"t", "err"})
    r.update(core.trace_check(250 if TIER != "thorough" else 3000))
    return r


@check("P02")
def p02():
    c = core.core_check({"t", "live", "err"}, want=lambda ty: ty["ledger"] != "-" or ty["name"] in HEAP, configs=[("g++", "17", (), True), ("g++", "20", (), "a")])
    # the same bookkeeping under what makes, combines and takes apart options
    only = lambda e, o: o.get("err")
    one = [("g++", "17", (), "a"), ("clang++", "20", (), False)] if TIER == "quick" else None
    for d in (p22(want=HOLDERS, compare=only, configs=one), p13(lifetimes=one or True), p14(lifetimes=one or True)):
        for k in ("states", "transitions", "traces_validated_against_impl", "steps_replayed", "variants"):
            c[k] = c.get(k, 0) + d[k]
    return c


HOLDERS = {"tracked", "const tracked", "tracked, explicit", "string from literal", "unique_ptr to base", "shared_ptr from unique_ptr", "shared_ptr to base", "vector from size", "any", "variant from string"}


def lifetimes_of(e, o):
    if o.get("err"):
        return o["err"]
    n = sum(1 for c in o["t"] if c > 0)
    if isinstance(o.get("live"), int) and not e["variant"].startswith(("pair", "flatten")) and o["live"] != n:
        return f"{o['live']} live objects for contents {o['t']}"


@check("P03")
def p03():
    return core.core_check({"t", "res", "ev", "err"}, ops=opset("ctor_", "make_option", "assign_", "copy_assign", "move_assign", "emplace", "try_emplace", "swap", "take", "reset", "write_"), configs=[("g++", "17", (), False), ("g++", "20", (), False)])


def calls(want):
    return table.expr_check("Calls", None, "calls.hpp", chunks=8, rows=[x for x in tlc_rows("Calls", "Calls.cfg", mem="4g")["rows"] if want(x["q"])])


def and_rows(c, d):
    for k in ("states", "transitions", "traces_validated_against_impl"):
        c[k] += d[k]
    c["samples"] = c["samples"][:5] + d["samples"][:3]
    return c


@check("P10")
def p10():
    c = core.core_check({"t", "res", "call", "ev", "err"}, ops=opset("map", "and_then", "or_else", "filter", "inspect", "has_value_and", "take_if", "write_cb"), configs=[("g++", "20", (), False), ("g++", "23", (), False)])
    return and_rows(c, calls(lambda q: True))


@check("P11")
def p11():
    return core.core_check({"t", "res", "ev", "err"}, ops=opset("value", "get", "deref"), configs=[("clang++", "17", (), "u")])


@check("P04")
def p04():
    """TLA+ spec/OptionFault.tla (every operation of OptionCore failing) checked with TLC; each case replayed with the k-th operation of T or the callback throwing || Every operation of the pool, from every content, with each of its first four operations of T and its callback throwing, on 15 throwing payload types (flag, in-place, composite, nested); allowed results are a set per case. Assumes T's own operations leave their operands unchanged when they throw."""
    return core.fault_check()


@check("P06")
def p06():
    """TLA+ spec/OptionNest.tla (contents of D-deep nested options, and their storage in spare representations) checked with TLC; every transition replayed on 58 nested types || All contents, operations at every depth and pairs of slots for D in 1..4 (6..8 for some), payloads with 0, 1, 2, 3 and >= 254 spare representations; depth 258 (514 in the thorough tier) for 5 payloads with 0 and 254..256 spare representations (spec/NestDeep.tla; g++ only); the storage scheme is checked to be faithful by TLC and observed through the public interface only."""
    c = nest.nest_check()
    d = nest.deep_check()
    for k in ("states", "transitions", "traces_validated_against_impl", "steps_replayed"):
        c[k] += d[k]
    c["deepest_nesting"] = max(t[2] for t in nest.DEEP if TIER == "thorough" or not t[4])
    return c


@check("P05")
def p05():
    """TLA+ spec/Patterns.tla (which bit patterns ordinary values have, which the library reserves) checked with TLC; its values stored in real options and recordings of all patterns that read as empty validated by TLC; spec/Niche.tla for types without bit patterns || All 2^8, 2^16 and (float, two enumerations) 2^32 bit patterns; 64-bit types: every reserved pattern, its neighbours, 1- and 2-bit changes and 2 million random ones. ABI facts of x86-64 and libstdc++ are assumed in the module."""
    n, k = patterns.patterns_check()
    c = niche.niche_check(lambda t: t["k"] in ("leaf", "complex", "opt"), True, lambda r, o: niche.cmp_run(r, o), [("g++", "17", (), "u")])
    c["ordinary_values_stored"] = n
    c["recordings_validated_by_tlc"] = k
    return c


@check("P07")
def p07():
    """TLA+ spec/Niche.tla (how types derive spare representations and what options cost) checked with TLC; sizes and levels of every enumerated type compared with the real ones || All type trees enumerated by the module (about 800, wider in thorough), nested 1..6 deep, and some types nested up to 300 deep."""
    c = niche.niche_check(lambda t: True, False, niche.cmp_static, [("g++", "17", (), False), ("clang++", "20", (), False)] if TIER != "thorough" else [("g++", "17", (), False), ("clang++", "20", (), False), ("clang++", "17", (), False), ("g++", "23", (), False)])
    c["deep_sizes"] = niche.deep_check()
    return c


@check("P08")
def p08():
    """TLA+ spec/Niche.tla (composites use one member's spare representations; faithful on an abstract memory for every composition) checked with TLC; all combinations of member values stored, changed and emptied in the real types || All composite trees enumerated by the module, all combinations of 2-3 values (and inner emptiness) per member, three depths of nesting, every level."""
    return niche.niche_check(lambda t: t["k"] not in ("leaf",), True, lambda r, o: niche.cmp_run(r, o) or niche.cmp_static(r, o), [("g++", "17", (), False)] if TIER != "thorough" else [("g++", "17", (), True), ("clang++", "20", (), False), ("g++", "20", ("-O2",), False)])


@check("P09")
def p09():
    """TLA+ spec/RefOption.tla (bindings of three reference options and values of the objects) checked with TLC; every transition replayed on 16 reference types || Two options of T& (const T&, T&&) and one of a const or base reference over 2 (thorough 3) objects with 2 values: every reachable state and operation; bindings observed by address, copies of the objects counted, bounded by the number of slots and objects."""
    vs = [(f"{p} {n}", p, (f"-DVARIANT={n}",)) for p, ns in (("lref", range(8)), ("clref", range(10, 14)), ("rref", range(20, 24))) for n in ns]
    return machine.machine_check("RefOption", "ref.cpp", vs, lambda p, deep: f"RefOption_{p}{'_deep' if deep else ''}.cfg", init=lambda p, n: [0, 0, 0] + [1] * (2 + n))


ALGEBRA = [("TF", "mark_copy", "TF", True), ("TN", "mark_copy", "TN", True), ("TM", "mark_move", "TM", True), ("TMN", "mark_move", "TMN", True),
           ("int", "keep_copy", "int", False), ("string", "mark_copy", "std::string", False), ("bool", "keep_copy", "bool", False), ("ref", "keep_copy", "int&", False),
           ("option<short>", "keep_copy", "opt::option<short>", False), ("unique_ptr", "mark_move", "std::unique_ptr<int>", False), ("double", "keep_copy", "double", False)]


@check("P12")
def p12():
    """TLA+ spec/Categories.tla (a calculus of constness and reference kinds mapping every operation to the type of its result or of its callback's argument; laws proved by TLC) instantiated on the real code: every row is a type compared by the compiler or, for callback arguments, in a real call || Five element types, plain or const, by value or reference, in options of all four categories; 14 accesses, 12 callbacks, two-option operations, flatten through up to three options with all qualifiers, get and unzip of pair, tuple, array with references, variants, containers (with views and proxies), maps, sets, make_option, deduction and conversions."""
    return table.expr_check("Categories", None, "categories.hpp", chunks=8)


@check("P13")
def p13(lifetimes=None):
    """TLA+ spec/Algebra.tla (selection by |, |=, &, ^, with its laws) checked with TLC; every transition replayed on 11 payload types || Three options with all contents (2, thorough 3 values; moved-from), all pairs of operands in every value category, self-application, values, none and chains; laws checked by TLC over all contents. Counted copies are exact; moves of the result are left to the compiler."""
    led = {n: l for n, _, _, l in ALGEBRA}

    def cmp(e, o):
        v = machine.default_compare(e, o)
        if v:
            return v
        x = e["a"]["ev"]
        if not led[e["variant"]] or x["cc"] < 0:
            return None
        cc, mc, ca, ma = o["ev"]
        if cc + ca != x["cc"] or not x["mc"][0] <= mc + ma <= x["mc"][1]:
            return f"{cc + ca} copies and {mc + ma} moves, specified {x['cc']} and {x['mc']}"
        if o["live"] != sum(1 for c in e["t"] if c):
            return f"{o['live']} live objects for contents {e['t']}"
    return machine.machine_check("Algebra", "algebra.cpp", [(n, p, (f"-DALG_T={t}",)) for n, p, t, l in ALGEBRA if l or not lifetimes],
                                 lambda p, deep: None if deep and lifetimes else f"Algebra_{p}{'_deep' if deep else ''}.cfg", init=lambda p, n: [0, 0, 0],
                                 compare=lifetimes_of if lifetimes else cmp, pass_variant=True, configs=lifetimes if isinstance(lifetimes, list) else None)


ORDER_NAN = {2, 3, 9}


@check("P15")
def p15():
    """TLA+ spec/Order.tla (comparison of options, values and none, proved a total order with none below every value by TLC) evaluated row by row on 22 pairs of types || All operators, argument orders and contents (none, three ordered values, one that compares to nothing); a type whose six operators are unrelated shows with all 64 truth tables that each operator is the one used; existence of operators."""
    def want(n):
        def f(x):
            if n == 30:
                return x["k"] == "exists"
            if n in (19, 22):
                return x["k"] == "spy"
            return x["k"] == "cmp" and (n in ORDER_NAN or 4 not in x["q"][1:]) and (n != 7 or 3 not in x["q"][1:])
        return f
    return table.table_check("Order", "order.cpp", [(f"types {n}", (f"-DVARIANT={n}",), want(n)) for n in [*range(23), 30]])


HASH = [("const int", "value", "const int"), ("const string", "value", "const std::string"), ("option<const int>", "value", "opt::option<const int>"), ("const tracked", "value", "const TF"), ("int", "value", "int"), ("long", "value", "long"), ("double", "value", "double"), ("string", "value", "std::string"), ("string_view", "value", "std::string_view"),
        ("int*", "value", "int*"), ("enum", "value", "EAuto"), ("TF", "value", "TF"), ("TN", "value", "TN"), ("unhashable no more", "value", "Thrower"),
        ("option<int>", "value", "opt::option<int>"), ("option<string>", "value", "opt::option<std::string>"), ("option<option<double>>", "value", "opt::option<opt::option<double>>"),
        ("bool", "value2", "bool"), ("option<bool>", "value2", "opt::option<bool>"),
        ("unique_ptr", "valuemove", "UP"), ("TMN", "valuemove", "TMN"), ("int&", "ref", "int&"), ("const int&", "ref", "const int&"), ("double&&", "ref", "double&&")]


@check("P16")
def p16():
    """TLA+ spec/HashSet.tla (hash of every content, sets of options) checked with TLC; every transition replayed on 20 types; availability decided by spec/HashAvail.tla || Two options reached by 11 routes and a set of options: every reachable content, operation and membership, 3 values (2 for bool and references); collisions are allowed where contents differ. Availability and noexcept for all type trees of options, const and references over hashable and unhashable leaves."""
    def cmp(e, o):
        if o.get("err"):
            return o["err"]
        if o["t"] != e["t"]:
            return f"state {o['t']}, specified {e['t']}"
        x, y = e["a"]["res"], o["res"]
        if e["a"]["op"] == "hash_eq":
            # different contents may have equal hashes
            if (x[0] and not y[0]) or x[1] != y[1]:
                return f"equal hashes {y[0]}, equal options {y[1]}, specified {x}"
        elif x != y:
            return f"result {y}, specified {x}"
        for k in (0, 1):
            if e["t"][k] not in o["h"][k]:
                return f"the hash of content {e['t'][k]} is that of {o['h'][k] or 'none of the contents'}"
    c = machine.machine_check("HashSet", "hashset.cpp", [(n, p, (f"-DHT={t}", f"-DHN={2 if p in ('value2', 'ref') else 3}")) for n, p, t in HASH],
                              lambda p, deep: None if deep else f"HashSet_{p}.cfg", init=lambda p, n: [0, 0, [0] * (3 if p in ("value2", "ref") else 4), [1, 2] if p in ("value2", "ref") else [1, 2, 3]], compare=cmp)
    d = table.expr_check("HashAvail", None, "avail.hpp", chunks=1)
    for k in ("states", "transitions", "traces_validated_against_impl"):
        c[k] += d[k]
    return c


# name, C++ type, moves leave a mark, copyable, counted
SMALL = [("TF", "TF", "mark", True, True), ("TN", "TN", "mark", True, True), ("TM", "TM", "mark", False, True), ("TMN", "TMN", "mark", False, True), ("int", "int", "keep", True, False),
         ("string", "std::string", "mark", True, False), ("bool", "bool", "keep", True, False), ("int&", "int&", "keep", True, False), ("enum", "EAuto", "keep", True, False),
         ("unique_ptr", "std::unique_ptr<int>", "mark", False, False), ("double", "double", "keep", True, False), ("char", "char", "keep", True, False)]


@check("P14")
def p14(lifetimes=None):
    """TLA+ spec/Structure.tla (zip, zip_with, unzip, flatten, option_cast and get on all contents) checked with TLC; every transition replayed on 12 payload types and 4 pair-like types; zip_with with member pointers and callables of every category by spec/Calls.tla || Three options with all contents (2 values, moved-from), 0 to 3 arguments in every value category (three arguments: const lvalue and rvalue), self-zip; nesting depth 1..4; pair, tuple, array; copies counted exactly, identity of referenced objects by address."""
    vs, counted = [], set()
    for n, t, m, c, led in SMALL:
        ref = t.endswith("&")
        sfx = m + ("" if c else "_mo")
        mk = lambda what, prof, *fl: (vs.append((f"{what} {n}", prof, (f"-DST_T={t}", *fl))), counted.add(f"{what} {n}") if led else None)
        mk("zip", f"zip_{sfx}", "-DPART=0")
        for d in (1, 2, 3, 4):
            if ref and d == 4:
                continue
            mk(f"flatten{d}", f"nest_ref_{d}" if ref else f"nest_{sfx}_{d}", "-DPART=1", f"-DDEPTH={d}")
        for k in (0, 1, 2, 3):
            if ref and k >= 2:
                continue
            mk(f"pair{k}", "pair_ref" if ref else f"pair_{sfx}" + ("_both" if k >= 2 and m == "mark" else ""), "-DPART=2", f"-DPK={k}")

    def cmp(e, o):
        v = machine.default_compare(e, o)
        if v:
            return v
        if e["variant"] not in counted:
            return None
        x = e["a"]["copies"]
        if x >= 0 and o["copies"] != x:
            return f"{o['copies']} copies, specified {x}"
        t = e["t"]
        n = 0 if e["variant"].startswith("pair") and not t else sum(1 for y in t if y > 0) if not e["variant"].startswith("pair") else 2 if e["variant"][4] in "23" else 1
        if o["live"] != n:
            return f"{o['live']} live objects, specified {n}"
    c = machine.machine_check("Structure", "structure.cpp", [v for v in vs if v[0] in counted or not lifetimes], lambda p, deep: None if deep else f"Structure_{p}.cfg",
                                 init=lambda p, n: [0, 0, 0] if p.startswith("zip") else [0] if p.startswith("nest") else [],
                                 compare=lifetimes_of if lifetimes else cmp, pass_variant=True, configs=lifetimes if isinstance(lifetimes, list) else None)
    return c if lifetimes else and_rows(c, calls(lambda q: "zip_with" in q))


@check("P17")
def p17():
    """TLA+ spec/Access.tla (elements of containers, maps, sets, variants and pointers by index, key, alternative) checked with TLC; every transition replayed on 11 containers, 7 maps and sets, variants and pointers of several element types || Containers of 0..3 elements, all indices up to size+1 and five huge ones, every value category, write and move through the result; 3 keys; 3 alternatives and valueless. Elements are compared by address; a strict container refuses any access beyond its elements."""
    vs = []
    for n, t, m, c, led in SMALL:
        if t.endswith("&"):
            continue
        for k, ty, w in ((0, "seq", ()), (1, "seq", ("TF", "string")), (3, "fix", ("TF", "string", "int")), (4, "one", ("TM",)), (5, "zero", ("TF", "int")), (6, "seq", ("char",)), (7, "seq", ("TF", "TMN", "int")), (9, "seq", ("TN", "int")), (11, "seq", ("double", "string"))):
            if (not w and t != "bool") or n in w:
                vs.append((f"container {k} of {n}", f"{ty}_{'keep' if k == 6 else m}", (f"-DAC_T={t}", "-DPART=0", f"-DCK={k}")))
        if t == "bool":
            vs.append(("vector<bool>", "seq_keep", ("-DAC_T=bool", "-DPART=0", "-DCK=8")))
        if t == "char":
            vs.append(("string_view", "const", ("-DAC_T=char", "-DPART=0", "-DCK=10")))
        for k, w in ((0, None), (1, ("TF", "int", "unique_ptr")), (2, ("TN", "string")), (3, ("TM", "double"))):
            if w is None or n in w:
                vs.append((f"map {k} to {n}", f"map_{m}", (f"-DAC_T={t}", "-DPART=1", f"-DMK={k}")))
        for k, w in ((4, ("int", "string", "TF")), (5, ("int", "string")), (6, ("TM",))):
            if n in w:
                vs.append((f"set {k} of {n}", "set", (f"-DAC_T={t}", "-DPART=1", f"-DMK={k}")))
        vs.append((f"variant of {n}", f"var_{m}", (f"-DAC_T={t}", "-DPART=2")))
        vs.append((f"pointer to {n}", f"ptr_{m}", (f"-DAC_T={t}", "-DPART=3")))
    return machine.machine_check("Access", "access.cpp", vs, lambda p, deep: None if deep else f"Access_{p}.cfg",
                                 init=lambda p, n: [1, 1, 1] if p.startswith("fix") else [1] if p.startswith("one") else [0, 0, 0] if p.startswith("map") or p == "set" else [1, 1] if p.startswith("var") else [0, 1, 2] if p.startswith("ptr") else [])


# (variant, what, levels, raw values can be written, moves leave a mark, can be copied / is plain / has == / has <)
WRAPPED = [(1, "sentinel<int> 1", 1, True, "keep", "cpeo"), (2, "sentinel<int> 2", 2, True, "keep", "cpeo"), (3, "sentinel<int> 3", 3, True, "keep", "cpeo"),
           (4, "sentinel<char> 3", 3, True, "keep", "cpeo"), (5, "sentinel<enum> 2", 2, True, "keep", "cpeo"), (6, "sentinel<int*> 2", 2, True, "keep", "cpe"),
           (7, "sentinel<double> 2", 2, True, "keep", "cpeo"), (8, "sentinel<unsigned long long> 2", 2, True, "keep", "cpeo"), (9, "sentinel_f<struct> 3", 3, True, "keep", "cpe"),
           (10, "sentinel_option_traits", 1, True, "keep", "cpe"), (11, "user traits 3", 3, False, "keep", "cpe"), (12, "sentinel_f<int> by bits", 3, False, "keep", "cpeo"),
           (13, "user traits 1", 1, True, "keep", "cpe"), (14, "member bool", 3, False, "keep", "cpe"), (15, "member enum beside a string", 1, False, "mark", "ce"),
           (16, "member pointer beside a tracked", 3, False, "mark", "c"), (17, "enforce<float>", 3, False, "keep", "cpeo"), (18, "enforce<pair>", 3, False, "keep", "c"),
           (19, "enforce<string>", 3, False, "mark", "c"), (20, "user traits of a tracked", 3, False, "mark", "ceo"), (21, "member option", 3, False, "keep", "cpe"),
           (22, "enforce<unique_ptr>", 3, False, "mark", ""), (23, "enforce<sentinel>", 2, True, "keep", "cp"),
           (24, "sentinel<int> 5", 5, True, "keep", "cpeo"), (25, "sentinel<unsigned char> 4", 4, True, "keep", "cpeo"), (26, "sentinel_f<int> 4", 4, True, "keep", "cpeo")]


def wrapped_profiles():
    for v, what, k, wr, m, caps in WRAPPED:
        for d in ({1: (1, 3), 2: (1, 2, 3), 3: (2, 3), 4: (1, 4, 5), 5: (2, 4, 5)}[k]):
            yield v, f"{what} depth {d}", f"{d}{k}{'w' if wr else 'u'}_{m}_{caps or 'n'}", d, k, wr, m, caps


@check("P18")
def p18():
    """TLA+ spec/Wrappers.tla (payloads that designate raw values as levels, up to three options deep) checked with TLC, faithfulness of the encoding as ASSUMEs; every transition replayed on 26 wrapped types; spec/WrapOps.tla (transfers of the wrapped value by every operation of the wrappers) evaluated on the real ones || Sentinels 1..5 of integers, characters, enumerations, pointers, floating point; sentinel_f by field and by bits; member of bool, enum, pointer, option; enforce; sentinel_option_traits; user traits. Two options, depth 1..5 (more sentinels than depth and more depth than sentinels), 3 ordinary values next to the sentinels; raw values written through *, ->m, get_unchecked, as_option."""
    vs = [(n, p, (f"-DWV={v}", f"-DWD={d}")) for v, n, p, d, *_ in wrapped_profiles()]
    c = machine.machine_check("Wrappers", "wrappers.cpp", vs, lambda p, deep: None if deep else f"Wrappers_{p}.cfg", init=lambda p, n: [{True: 10 + int(p[0]), False: 20 + int(p[0])}[p[0] <= p[1]]] * 2)
    return and_rows(c, wrap_ops())


def wrap_ops():
    return table.expr_check("WrapOps", None, "wrapops.hpp", chunks=4)


@check("P19")
def p19():
    """TLA+ spec/Special.tla (special members, triviality, noexcept, constructors and conversions as functions of the contained type's features; laws proved by TLC) instantiated on the real code: every row is asked of the compilers about a type with these features || All consistent combinations of deleted / throwing / noexcept / trivial / undeclared copy and move constructors and assignments with three kinds of destructors, with a flag and with levels, nested; every combination of explicit and implicit constructors, assignments and constructors from options; argument counts, aggregates, all reference bindings among three classes, reference_wrapper; own swap functions; noexcept of every function on a type whose operations throw."""
    return table.expr_check("Special", None, "special.hpp", chunks=16)


CONVERTED = [(0, "tracked", "tracked"), (3, "string from literal", "cls"), (1, "long from int", "scalar"), (2, "double from float", "scalar"), (4, "string from string_view", "clsx"), (5, "base pointer from derived", "scalar"),
             (6, "unique_ptr to base", "moveonly"), (7, "bool from int", "scalar2"), (8, "int from bool", "scalar2"), (9, "variant from string", "cls_marks"), (10, "optional from string", "cls_marks"),
             (11, "shared_ptr from unique_ptr", "moveonly"), (12, "any", "greedy"), (13, "function", "cls"), (14, "pair", "cls"), (15, "tuple from pair", "cls"), (16, "vector from size", "clsxn"),
             (18, "void pointer", "scalar"), (19, "const string", "clsc"), (20, "const tracked", "trackedc"), (21, "float from double", "scalar"), (22, "shared_ptr to base", "cls_marks"),
             (23, "const bool", "scalarc2"), (24, "const int from bool", "scalarc2"), (25, "const double", "scalarc3"), (26, "const pointer", "scalarc3")]


@check("P20")
def p20():
    """TLA+ spec/OptionCore, Algebra, Structure, Iter, RefOption, Order, Access, Calls (checked with TLC): their transitions as tables that the compilers execute as constant expressions and the program repeats at run time || Nearly all transitions of the state spaces, each from its own start state: 19 payload types (scalars, aggregates, classes with non-trivial operations that own memory, move-only, immovable, with levels of their own), options of references, pairs, tuples, arrays, variants; g++ and clang++, C++17 (where the active member of a union does not change) and C++20. Any undefined behaviour or non-constexpr step is a failure to compile. Types that keep their levels in bits (bool, floating point, pointers) and nested options are not constexpr by design."""
    rows = tlc_rows("Calls", "Calls.cfg", mark="CX ", mem="4g")["rows"]
    return and_rows(cexpr.constexpr_check(), table.expr_check("Calls", None, "calls.hpp", chunks=1, rows=rows, expr=lambda x: "[] { constexpr int r = " + x["q"] + "; return r; }()",
                                                              configs=[("g++", "17", (), False), ("clang++", "20", (), False)], thorough=[("g++", "17", (), False), ("g++", "20", (), False), ("clang++", "17", (), False), ("clang++", "20", (), False), ("g++", "23", (), False)]))


@check("P21")
def p21():
    """TLA+ spec/Verify.tla (which operations fire a check of OPTION_VERIFY, and what for) checked with TLC; every transition replayed with a macro of the user's that cuts the operation short, and with the library's own in a child process, and those that fire nothing with NDEBUG || Access through options 1..3 deep by every function and category on 25 element types, with and without exceptions; iterators of all positions, nowhere included, through all operators; storing designated values (levels) by constructors, assignments, conversions, emplace at every depth, results of callbacks, with 9 payload types. A check that fires without cause is an error in every other check as well, where a failed check ends the harness."""
    real = ("-DREAL",)
    vs = []
    for n, t, m, c, led in SMALL + [("int& ", "int&", "", "", ""), ("const int", "const int", "", "", ""), ("string&", "std::string&", "", "", ""), ("int&&", "int&&", "", "", ""), ("const TI", "const TI", "", "", "")]:
        if n == "int&":
            continue
        b = "_b" if n == "bool" else ""
        deep = (1, 2, 3) if n in ("TF", "TN", "int", "bool", "string", "double") else (2,) if not t.endswith("&") else (1,)
        for d in deep:
            vs.append((f"access {n} {d}", f"access_{d}{b}", ("-DVMODE=0", f"-DVT={t}", f"-DVD={d}")))
            if n in ("TF", "int", "int& ", "TN", "string"):
                vs.append((f"access {n} {d}, own macro", f"access_{d}{b}", ("-DVMODE=0", f"-DVT={t}", f"-DVD={d}", *real)))
                if n != "TF":
                    vs.append((f"access {n} {d}, no exceptions", f"access_{d}{b}_x", ("-DVMODE=0", f"-DVT={t}", f"-DVD={d}", "-fno-exceptions")))
        if not t.endswith("&&") and n != "bool":
            for k in (0, 1):
                vs.append((f"iterator {n} {k}", "iter", ("-DVMODE=1", f"-DVT={t}", f"-DVD={k}")))
            if n in ("int", "TN", "int& "):
                vs.append((f"iterator {n} own macro", "iter", ("-DVMODE=1", f"-DVT={t}", "-DVD=0", *real)))
    for n, t, k in (("trivial", "Triv", 3), ("loud", "Loud", 3), ("two levels", "TrivD", 2), ("one level", "OneLevel", 1), ("aggregate", "Agg", 2), ("double", "double", 3), ("float", "float", 3), ("pointer", "int*", 3), ("sentinel 1", "opt::sentinel<int,-1>", 1), ("sentinel 3", "opt::sentinel<int,-1,-2,-3>", 3)):
        for d in (1, 2, 3):
            nt = "_nt" if n in ("loud", "two levels") else ""
            vs.append((f"store {n} {d}", f"store_{d}{k}{nt}", ("-DVMODE=2", f"-DVS={t}", f"-DVD={d}", f"-DVK={k}")))
            if n in ("loud", "sentinel 3", "double"):
                vs.append((f"store {n} {d}, own macro", f"store_{d}{k}{nt}", ("-DVMODE=2", f"-DVS={t}", f"-DVD={d}", f"-DVK={k}", *real)))
    off = ("-DPLAIN", "-DNDEBUG", "-O2")     # nothing is checked, and what would be checked is assumed: all that does not fire
    vs += [(f"{n}, NDEBUG", p + "_nd", (*f, *off)) for n, p, f in list(vs) if "-DREAL" not in f and "-fno-exceptions" not in f and n.split()[1] in ("int", "string", "TN", "loud", "sentinel", "double", "aggregate")]

    def init(p, n):
        return 0 if p.startswith("access") else [0, -1, -1] if p.startswith("iter") else (lambda d, k: 10 + d if d <= k else 20 + d)(int(p[6]), int(p[7]))
    return machine.machine_check("Verify", "verify.cpp", vs, lambda p, deep: None if deep else f"Verify_{p.removesuffix('_nd').removesuffix('_nt')}.cfg", init=init, keep=lambda p, e: (not p.endswith("_nd") or e["a"]["res"][0] == 0) and ("_nt" not in p or e["a"]["op"] != "as_option"),
                                 configs=[("g++", "17", (), False), ("clang++", "20", (), False)])


@check("P22")
def p22(want=None, compare=machine.default_compare, configs=None):
    """TLA+ spec/Convert.tla (what options are made of: how the contained value came about, what becomes of the source; the meaning of sources of every depth for nested options, injective wrapping as ASSUMEs) checked with TLC; every transition replayed on 27 pairs of types and 12 nested combinations || Construction (direct, list, copy initialisation, argument, return, in place, make_option, deduction), assignment, emplace, try_emplace from values and options of another type in four value categories, none, braces, several arguments, initializer lists; a tracked class that records which constructor or assignment made it, explicit and implicit; scalars, strings, pointers, smart pointers, variant, optional, any, function, pairs, const; nesting 2..4 from sources of depth 0..4 of the same or another type."""
    vs = [(n, p, (f"-DCV={k}",)) for k, n, p in CONVERTED] + [("tracked, explicit", "trackedx", ("-DCV=0", "-DEXPL=explicit"))]
    vs += [("tracked, destroyed", "tracked", ("-DCV=0", "-DCDTOR")), ("tracked, levels", "tracked", ("-DCV=0", "-DCLEVELS")), ("tracked, levels, destroyed", "tracked", ("-DCV=0", "-DCDTOR", "-DCLEVELS"))]
    for d in (2, 3, 4):
        vs += [(f"{a} and {b} {d} deep", f"nest{d}", (f"-DNEST={d}", f"-DCX={a}", f"-DCY={b}")) for a, b in (("int", "short"), ("long", "int"), ("double", "float"))] + [(f"string and literal {d} deep", f"nest{d}", (f"-DNEST={d}", "-DCX=std::string", "-DCY=const char*"))]
    return machine.machine_check("Convert", "convert.cpp", [v for v in vs if not want or v[0] in want], lambda p, deep: None if deep else f"Convert_{p}.cfg", init=lambda p, n: [0, 0], compare=compare, configs=configs)


@check("P24")
def p24():
    """TLA+ spec/Iter.tla (iterators as pointers into a range of zero or one element, random access laws as invariants) checked with TLC; every transition replayed on 18 element types || Two mutable and one const iterator in all combinations of positions, value-initialised and of empty options included; all operators with all offsets that stay in the range, comparisons, conversions, writes through iterators, loops, algorithms, C++20 ranges, views, span and to_address; iterator types and concepts as static assertions."""
    vs = [(n, "ref" if t.endswith("&") else "const" if n in ("TI", "TA") else "rw", (f"-DIT_T={t}",)) for n, t, m, c, led in SMALL if t != "int&"]
    vs += [(t, "const", (f"-DIT_T={t}",)) for t in ("const int", "const std::string", "const int&", "TI", "TA")] + [(t, "ref", (f"-DIT_T={t}",)) for t in ("int&", "int&&", "std::string&", "double&&")]
    vs += [(t, "rw", (f"-DIT_T={t}",)) for t in ("opt::option<short>", "std::vector<int>", "IntPtr", "AggIF")]
    return machine.machine_check("Iter", "iter.cpp", vs, lambda p, deep: None if deep else f"Iter_{p}.cfg", init=lambda p, n: [0, -1, -1, -1])


@check("P23")
def p23():
    """TLA+ spec/Io.tla (what opt::io writes and reads for every content, alternative and stream) checked with TLC; every transition replayed on 19 combinations of element and alternative types || Two options and an alternative with all contents (3 values); an own stream type that identifies the objects it is given by address, std::ostringstream and std::wostringstream, input streams with and without input; lvalue, const and temporary options, lvalue and literal alternatives, chains, helpers kept while option and alternative change. Copies are counted for tracked types; an alternative that cannot be copied."""
    vs = []
    for n, t, p, wide in (("int", "int", "std", 1), ("long", "long", "std", 1), ("string", "std::string", "narrow", 0), ("bool", "bool", "bool", 1), ("const int", "const int", "ro", 1), ("int&", "int&", "std", 1), ("int&&", "int&&", "std", 1), ("unsigned long", "unsigned long", "std", 1)):
        if t == "int&&":
            continue    # a temporary option of a temporary is not copied
        vs.append((n, p, (f"-DIO_T={t}", "-DALT=1", f"-DNV={2 if n == 'bool' else 3}", f"-DWIDE={wide}")))
    for n, t, m, c, led in SMALL:
        p = "ownbool" if n == "bool" else "own"
        vs.append((f"own stream {n}", p, (f"-DIO_T={t}", "-DALT=0", f"-DNV={2 if n == 'bool' else 3}", "-DWIDE=0", "-DOWN_ONLY")))
        if n in ("TF", "TMN", "double", "enum"):
            vs.append((f"own stream {n} or other", p, (f"-DIO_T={t}", "-DALT=1", "-DNV=3", "-DWIDE=0", "-DOWN_ONLY")))
    return machine.machine_check("Io", "io.cpp", vs, lambda p, deep: None if deep else f"Io_{p}.cfg", init=lambda p, n: [0, 0, 1])

"""Decision tables: a TLA+ module proves laws about a function and prints it row by row ("ROW {k, q, r}"); every row is evaluated on the real code."""
from common import *
from core import parse_lines, brief


CONFIGS = [("g++", "17", (), True), ("clang++", "20", (), False)]
THOROUGH = [("g++", "17", (), True), ("g++", "20", ("-O2",), True), ("g++", "23", (), False), ("clang++", "17", ("-O2",), False), ("clang++", "20", (), True), ("g++", "17", ("-O2", "-DNDEBUG"), False)]


def table_check(module, src, variants, cfg=None, configs=None, thorough=None, equal=None, timeout=600, rows=None, min_rows=1):
    """variants: (name, flags, wanted(row)); the harness reads the rows' questions and prints {"r": answer} for each."""
    r = rows if rows is not None else tlc_rows(module, cfg or f"{module}.cfg", mem="4g")["rows"]
    d = os.path.join(BUILD, "scripts")
    os.makedirs(d, exist_ok=True)
    jobs, meta = [], []
    for name, fl, want in variants:
        mine = [x for x in r if want(x)]
        if len(mine) < min_rows:
            raise CheckError(f"{module} {name}: no rows")
        path = os.path.join(d, f"{module}-{re.sub('[^A-Za-z0-9]', '_', name)}-{os.getpid()}.txt")
        with open(path, "w") as f:
            f.write("".join(" ".join(str(y) for y in x["q"]) + "\n" for x in mine))
        for cxx, std, f2, san in ((thorough or THOROUGH) if TIER == "thorough" else configs or CONFIGS):
            jobs.append(dict(name=f"{name} {cxx} c++{std} {' '.join(f2)}", src=src, cxx=cxx, std=std, flags=(*fl, *f2), san=san))
            meta.append((name, f"[{cxx} c++{std} {' '.join(f2)}]", mine, path))
    eq = equal or (lambda x, o: o["r"] == x["r"])

    def one(x):
        exe, (name, lab, mine, path) = x
        rc, out, err = run([exe, path], timeout=timeout)
        obs = parse_lines(out)
        skipped = 0
        for n, row in enumerate(mine):
            where = f"{name} {lab}: {' '.join(str(y) for y in row['q'])}"
            if n >= len(obs) or "r" not in obs[n]:
                if n < len(obs) and obs[n].get("skip"):
                    raise CheckError(f"the harness does not know {where}")
                return Violation(f"{where}: crashed rc={rc} " + brief(err), err[-3000:])
            o = obs[n]
            if o.get("err"):
                return Violation(f"{where}: {o['err']}", json.dumps(row))
            if o["r"] == "n/a":
                skipped += 1
                continue
            if not eq(row, o):
                return Violation(f"{where}: {json.dumps(o['r'])}, specified {json.dumps(row['r'])}", json.dumps(row))
        if rc:
            return Violation(f"{name} {lab}: ended with rc={rc} " + brief(err), err[-3000:])
        if len(obs) > len(mine) and obs[-1].get("err"):
            return Violation(f"{name} {lab}: at the end: {obs[-1]['err']}")
        if skipped == len(mine):
            raise CheckError(f"{name} {lab}: every row skipped")
        return len(mine) - skipped
    try:
        exes = compile_all(jobs)
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(one, zip(exes, meta)))
    finally:
        for _, _, _, p in meta:
            if os.path.exists(p):
                os.unlink(p)
    for v in rs:
        if isinstance(v, Violation):
            raise v
    step = max(1, len(r) // 6)
    return dict(states=len(r), transitions=sum(rs), rows_rule="states: rows of the decision table TLC evaluated; transitions: evaluations of rows on the real code", traces_validated_against_impl=len(rs), variants=len(variants),
                samples=[f"{' '.join(str(y) for y in x['q'])} = {json.dumps(x['r'])}" for x in r[::step]][:6])


def expr_check(module, cfg, prelude, rows=None, expr=lambda x: x["q"], configs=None, thorough=None, guard=None, chunks=4):
    """Rows whose question is a C++ constant expression (or one built from it by expr): all evaluated by the compiler and printed.
    guard: rows whose expression may be ill-formed make the harness fail to compile, which is reported as such."""
    r = rows if rows is not None else tlc_rows(module, cfg or f"{module}.cfg", mem="4g")["rows"]
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    groups = collections.OrderedDict()      # rows that need the same definition stay together
    for i, x in enumerate(r):
        groups.setdefault(x.get("d") or i, []).append(x)
    groups = list(groups.values())
    parts = [[x for g in groups[i::chunks] for x in g] for i in range(chunks) if groups[i::chunks]]
    jobs, meta = [], []
    for n, part in enumerate(parts):
        body = "".join(f"    p({expr(x)});\n" for x in part)
        # many small functions: one huge one is slow to compile
        fs, lines = [], body.splitlines(True)
        for k in range(0, len(lines), 200):
            fs.append(f"static void f{k}() {{\n" + "".join(lines[k:k + 200]) + "}\n")
        text = f'#include "{prelude}"\n' + "".join(d + "\n" for d in dict.fromkeys(x["d"] for x in part if x.get("d"))) + 'template<class X> static void p(X x) { std::printf("%lld\\n", (long long)(x)); }\n' + "".join(fs) + "int main() {\n    std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16);\n" + "".join(f"    f{k}();\n" for k in range(0, len(lines), 200)) + "}\n"
        path = os.path.join(d, f"expr-{module}-{n}-{sha(text)}.cpp")
        if not os.path.exists(path):
            with open(path + f".{os.getpid()}", "w") as f:
                f.write(text)
            os.replace(path + f".{os.getpid()}", path)
        for cxx, std, f2, san in ((thorough or THOROUGH) if TIER == "thorough" else configs or CONFIGS):
            jobs.append(dict(name=f"{module} {n} {cxx} c++{std} {' '.join(f2)}", src=path, cxx=cxx, std=std, flags=f2, san=False))
            meta.append((f"[{cxx} c++{std} {' '.join(f2)}]", part))
    exes = compile_all(jobs)
    total = 0
    for exe, (lab, part) in zip(exes, meta):
        rc, out, err = run([exe], timeout=120)
        o = out.split()
        for n, x in enumerate(part):
            if n >= len(o):
                raise Violation(f"{lab} {expr(x)}: crashed rc={rc} " + brief(err), err[-2000:])
            if int(o[n]) != int(x["r"]):
                raise Violation(f"{lab} {expr(x)}: {o[n]}, specified {int(x['r'])}", json.dumps(x))
        total += len(part)
    step = max(1, len(r) // 6)
    return dict(states=len(r), transitions=total, traces_validated_against_impl=len(exes), rows_rule="states: rows of the decision table TLC evaluated; transitions: evaluations of rows by the compilers",
                samples=[f"{expr(x)} = {json.dumps(x['r'])}" for x in r[::step]][:6])

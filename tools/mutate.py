#!/usr/bin/env python3
"""Development tool (no check uses it): random small mutations of the header.
  mutate.py gen N SEED OUTDIR          writes OUTDIR/NNN.json {line, kind, old, new}
  mutate.py tests OUTDIR CLONE...      keeps the mutants that compile and pass the test program (one worker per clone)
  mutate.py checks OUTDIR CLONE PROG P.. runs the checks (in a reduced copy of /verif at PROG) on the survivors until one reports"""
import json, os, random, re, subprocess, sys, time, glob
from concurrent.futures import ThreadPoolExecutor
H = "include/opt/option.hpp"
SRC = os.environ.get("SEED_REPO", "/repo") + "/" + H


def sites(lines):
    out = []
    incom = False
    for n, l in enumerate(lines):
        c = l.split("//")[0]
        if not c.strip() or c.lstrip().startswith("#") and "define" not in c:
            continue
        def add(kind, a, b, new):
            out.append((n, kind, a, b, new))
        for m in re.finditer(r" && ", c):
            add("and-or", m.start(), m.end(), " || ")
        for m in re.finditer(r" \|\| ", c):
            add("or-and", m.start(), m.end(), " && ")
        for m in re.finditer(r"!(?=[a-zA-Z_(])", c):
            add("not", m.start(), m.end(), "")
        for m in re.finditer(r" == ", c):
            add("eq", m.start(), m.end(), " != ")
        for m in re.finditer(r" != ", c):
            add("ne", m.start(), m.end(), " == ")
        for m in re.finditer(r" < ", c):
            if "template" not in c:
                add("lt", m.start(), m.end(), " <= ")
        for m in re.finditer(r" > ", c):
            if "template" not in c:
                add("gt", m.start(), m.end(), " >= ")
        for m in re.finditer(r" (<=|>=) ", c):
            add("le", m.start(), m.end(), " " + m.group(1)[0] + " ")
        for m in re.finditer(r" \+ ", c):
            add("plus", m.start(), m.end(), " - ")
        for m in re.finditer(r" - ", c):
            add("minus", m.start(), m.end(), " + ")
        for m in re.finditer(r"\b(true|false)\b", c):
            add("bool", m.start(), m.end(), "false" if m.group() == "true" else "true")
        for m in re.finditer(r"\b([0-9]+)(u?)\b(?!\.)", c):
            if not c.lstrip().startswith("#"):
                add("num", m.start(), m.end(), str(int(m.group(1)) + 1) + m.group(2))
        for m in re.finditer(r"static_cast<[A-Za-z_:]+ ?(const)? ?&&>\(", c):
            add("cast", m.start(), m.end(), "(")
        for m in re.finditer(r"std::(move|forward<[^<>]*>)\(", c):
            add("cast", m.start(), m.end(), "(")
        for m in re.finditer(r"(impl::)?(remove_cvref_t|remove_cvref|std::remove_cv_t|std::remove_reference_t|std::remove_const_t|std::decay_t)<([^<>]*)>", c):
            add("cv", m.start(), m.end(), m.group(3))
        for m in re.finditer(r"\bconstexpr (?!(bool|std::size_t|auto) )(?!const)", c):
            if "if constexpr" not in c:
                add("constexpr", m.start(), m.end(), "inline " if "template" not in c and "friend" not in c and n and not lines[n - 1].strip().startswith("template") else "")
        for m in re.finditer(r"\bconst&(?!&)", c):
            add("constref", m.start(), m.end(), "&")
        for m in re.finditer(r"\bconst&&", c):
            add("constrref", m.start(), m.end(), "&&")
        for m in re.finditer(r"(?<=\S) ?&& (?=[a-z])", c):
            pass
        for m in re.finditer(r"noexcept\(", c):
            pass
        m = re.match(r"\s+[a-z_:]+[^=;{}]*(\(|=)[^{}]*;\s*$", c)
        if m and not re.match(r"\s*(using|typedef|return|static_assert|template|friend|explicit|static|constexpr|const|struct|class)\b", c):
            if "operator" not in c and not re.search(r"\b(inline|noexcept|constexpr|auto)\b", c):
                add("stmt", len(c) - len(c.lstrip()), len(c.rstrip()), ";")
        for m in re.finditer(r"\bstd::(conjunction|conjunction_v)<", c):
            add("conj", m.start(), m.end(), m.group().replace("conjunction", "disjunction"))
        for m in re.finditer(r", (std::)?(is_[a-z_]+|negation)<[^<>]*(<[^<>]*>)?[^<>]*>", c):
            add("dropcond", m.start(), m.end(), "")
        for m in re.finditer(r" && (!?[a-z_:]+(<[^<>]*>)?(\([^()]*\))?)", c):
            add("dropand", m.start(), m.end(), "")
    return out


def gen(n, seed, out):
    lines = open(SRC).read().split("\n")
    ss = sites(lines)
    rng = random.Random(seed)
    # no more than three per line
    rng.shuffle(ss)
    os.makedirs(out, exist_ok=True)
    have = set()
    for f in glob.glob(out + "/*.json"):
        j = json.load(open(f))
        have.add((j["line"] - 1, j["a"], j["new"]))
    k = len(have)
    kinds = {}
    per = {}
    for s in ss:
        if k >= n + len(have):
            break
        if (s[0], s[2], s[4]) in have or per.get(s[0], 0) >= 2 or kinds.get(s[1], 0) > n // 6:
            continue
        per[s[0]] = per.get(s[0], 0) + 1
        kinds[s[1]] = kinds.get(s[1], 0) + 1
        l = lines[s[0]]
        json.dump(dict(line=s[0] + 1, a=s[2], kind=s[1], new=s[4], old=l, text=l[:s[2]] + s[4] + l[s[3]:]), open(f"{out}/{k:04}.json", "w"))
        k += 1
    print(len(ss), "sites", kinds)


def put(clone, j):
    lines = open(SRC0).read().split("\n")
    assert lines[j["line"] - 1] == j["old"]
    lines[j["line"] - 1] = j["text"]
    open(f"{clone}/{H}", "w").write("\n".join(lines))


TESTS = ["option.test", "special.test", "functions.test", "lifetime.test", "meta.test", "operators.test", "special_traits.test", "constexpr.test", "forward_std.test"]


def tests(out, clones):
    import queue
    q = queue.Queue()
    for f in sorted(glob.glob(out + "/*.json")):
        if not os.path.exists(f[:-5] + ".tests"):
            q.put(f)

    def work(c):
        while True:
            try:
                f = q.get_nowait()
            except queue.Empty:
                return
            j = json.load(open(f))
            put(c, j)
            res = "survived"
            fl = f"-std=c++17 -w -O0 -I{c}/include -I/repo/test -DDOCTEST_CONFIG_NO_MULTITHREADING -DDOCTEST_CONFIG_SUPER_FAST_ASSERTS -DOPTION_USE_PFR=0 -include array"
            objs = []
            for t in TESTS:
                o = f"{c}/{t}.o"
                r = subprocess.run(f"timeout 200 g++ {fl} -c /repo/test/{t}.cpp -o {o}", shell=True, capture_output=True)
                if r.returncode:
                    res = "build " + t
                    break
                objs.append(o)
            else:
                r = subprocess.run(f"g++ {' '.join(objs)} {MAIN} -o {c}/t.exe && timeout 60 {c}/t.exe", shell=True, capture_output=True, text=True)
                if not re.search(r"test cases:\s*\d+ \|\s*\d+ passed \|\s*1 failed .*\n.*assertions: \d+ \| \d+ passed \| 170 failed", r.stdout):
                    res = "fails"      # one case needs PFR and is not among the stable ones
            if res == "survived":
                r = subprocess.run(f"timeout 100 clang++ -std=c++20 -fsyntax-only -w -I{c}/include -DOPTION_USE_PFR=0 /repo/test/meta.test.cpp", shell=True, capture_output=True)
                if r.returncode:
                    res = "build clang"
            open(f[:-5] + ".tests", "w").write(res)
    with ThreadPoolExecutor(len(clones)) as ex:
        list(ex.map(work, clones))


REGIONS = [(600, "P12 P19"), (660, "P12 P19 P10 P20"), (1000, "P07 P06"), (1812, "P07 P08 P05 P18 P20"), (2600, "P19 P03 P09 P02 P20 P04"), (2720, "P12 P11 P10 P20"), (3000, "P19 P12 P22 P09 P03"),
           (3390, "P19 P12 P11 P03 P10 P21 P20"), (3860, "P19 P12 P13 P14 P17 P16 P15 P20"), (9999, "P18 P15 P19 P12 P20")]


def order(line, ps):
    first = next(r.split() for n, r in REGIONS if line < n)
    return first + [p for p in ps if p not in first] if ps != ['own'] else first


def checks(out, clone, prog, ps):
    while True:
        todo = [f for f in sorted(glob.glob(out + "/*.json")) if os.path.exists(f[:-5] + ".tests") and open(f[:-5] + ".tests").read() == "survived" and not os.path.exists(f[:-5] + ".checks")]
        if not todo:
            if all(os.path.exists(f[:-5] + ".tests") for f in glob.glob(out + "/*.json")) or os.path.exists(out + "/stop"):
                return
            time.sleep(10)
            continue
        f = todo[0]
        open(f[:-5] + ".checks", "w").write("running")
        j = json.load(open(f))
        put(clone, j)
        res, t = "SURVIVED", time.time()
        for p in order(j["line"], ps):
            r = subprocess.run(f"OPTION_REPO={clone} VERIF_SEED=1 timeout 900 ./check {p}", shell=True, capture_output=True, text=True, cwd=prog)
            if r.returncode == 1:
                res = f"{p} " + r.stdout.splitlines()[0][:150]
                break
            if r.returncode:
                res = f"ERROR {p} rc={r.returncode} " + r.stderr[-300:]
                break
        open(f[:-5] + ".checks", "w").write(res)
        print(f"{os.path.basename(f)} {time.time() - t:.0f}s l.{j['line']} {j['kind']} | {j['old'].strip()[:90]} -> {j['text'].strip()[:90]} | {res}", flush=True)
        subprocess.run(f"find {prog}/build/bin -type f -delete", shell=True)


SRC0 = "/tmp/mut_base.hpp"
MAIN = "/tmp/mut_main.o"
if __name__ == "__main__":
    a = sys.argv[2:]
    if sys.argv[1] == "gen":
        subprocess.run(["cp", SRC, SRC0])
        gen(int(a[0]), int(a[1]), a[2])
    elif sys.argv[1] == "tests":
        subprocess.run(f"g++ -std=c++17 -w -c -DDOCTEST_CONFIG_NO_MULTITHREADING -DDOCTEST_CONFIG_SUPER_FAST_ASSERTS -I/repo/test /repo/test/main.cpp -I/repo/include -o {MAIN}", shell=True, check=True)
        tests(a[0], a[1:])
    else:
        checks(a[0], a[1], a[2], a[3:])

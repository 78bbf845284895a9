"""spec/Patterns.tla: bit patterns (P05)."""
from common import *
from core import parse_lines, brief


def patterns_check():
    rows = tlc_rows("Patterns", "Patterns.cfg")["rows"]
    d = os.path.join(BUILD, "scripts")
    os.makedirs(d, exist_ok=True)
    lines = sorted(f"{r['type']} {' '.join(map(str, r['pat']))}" for r in rows)
    path = os.path.join(d, f"patterns-{os.getpid()}.txt")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    cf = [("g++", "17", (), True), ("g++", "20", ("-O2", "-DNDEBUG", "-pthread"), False), ("clang++", "17", ("-O2", "-DNDEBUG", "-pthread"), False)]
    cf.insert(2, ("g++", "17", ("-O2", "-DNDEBUG", "-pthread", "-DOPTION_USE_QUIET_NAN=1"), False))
    exes = compile_all([dict(name=f"patterns {c} c++{s}", src="patterns.cpp", cxx=c, std=s, flags=fl, san=sn) for c, s, fl, sn in cf])
    n = validated = 0
    try:
        for exe, (c, s, fl, sn) in zip(exes, cf):
            lab = f"[{c} c++{s} {' '.join(fl)}]"
            rc, out, err = run([exe, path])
            o = parse_lines(out)
            if rc or not o:
                raise Violation(f"storing ordinary values {lab}: rc={rc} " + brief(err), err[-3000:])
            if "bad" in o[0]:
                raise Violation(f"ordinary value not stored faithfully {lab}: {o[0]['bad']}")
            n += o[0]["n"]
            if sn:
                continue
            rc, out, err = run([exe], timeout=400)
            if rc:
                raise Violation(f"scanning bit patterns {lab}: rc={rc} " + brief(err), err[-3000:])
            rec = path + ".rec"
            with open(rec, "w") as f:
                f.write(out)
            r = tlc("Patterns", "Patterns.cfg", env={"RECORD": rec}, cache=False)
            os.unlink(rec)
            bad = re.findall(r'^"BADREC (.*)"', r["out"], re.M)
            ok = re.findall(r'^"OKREC (.*)"', r["out"], re.M)
            if bad:
                raise Violation(f"{lab} {bad[0]}", "\n".join(bad))
            if r["rc"] or len(ok) != out.count('"type"'):
                raise CheckError("TLC could not validate the recording\n" + r["out"][-2000:])
            validated += len(ok)
            if c == "clang++" and TIER != "thorough":
                break
    finally:
        os.unlink(path)
    return n, validated

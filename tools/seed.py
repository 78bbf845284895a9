#!/usr/bin/env python3
"""Development tool for planted bugs (no check uses it).
  seed.py verify ID...        build + stable tests + demo on a patched /repo, demo on the clean one
  seed.py check ID [Pxx...]   run the checks (default: the seed's property) on the patched /repo
  seed.py matrix [ID...]      the property's own check for every seed"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
R = os.environ.get("SEED_REPO", "/repo")     # check and matrix can use a clone of /repo


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean():
    sh(f"git -C {R} checkout -- .")


def demo(i):
    r = sh(f"bash {S}/{i}/demo.sh", cwd="/repo", timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def verify(i):
    clean()
    rc0, o0 = demo(i)
    r = sh(f"git -C /repo apply {S}/{i}/patch.diff")
    if r.returncode:
        return f"{i}: does not apply {r.stderr}"
    try:
        r = sh("bash /opt/vp/test.sh /tmp/seed.json")
        res = json.load(open("/tmp/seed.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [t for t in stable if t not in set(res["passed"])]
        rc1, o1 = demo(i)
    finally:
        clean()
    ok = rc0 == 0 and rc1 != 0 and not miss
    return f"{i}: {'OK' if ok else 'BAD'} clean={rc0} patched={rc1} failing={len(miss)} {miss[:4]} {'' if ok else o0 + o1}"


def check(i, ps):
    p = json.load(open(f"{S}/{i}/meta.json"))["property"]
    out = []
    clean()
    r = sh(f"git -C {R} apply {S}/{i}/patch.diff")
    assert r.returncode == 0, r.stderr
    try:
        for q in ps or [p]:
            t = time.time()
            r = sh(f"OPTION_REPO={R} ./check {q}", cwd=V)
            l = [x for x in (r.stdout + r.stderr).splitlines() if x.startswith("VIOLATION")]
            out.append(f"{i} {q}: rc={r.returncode} {time.time() - t:.0f}s {'CAUGHT ' + l[0][:60] if r.returncode == 1 and l else 'missed ' + (r.stdout + r.stderr)[-400:]}")
            if r.returncode == 1:
                out.append("     " + " ".join((r.stdout).splitlines()[:3])[:260])
    finally:
        clean()
    return "\n".join(out)


if __name__ == "__main__":
    cmd, a = sys.argv[1], sys.argv[2:]
    if cmd == "verify":
        for i in a or sorted(os.listdir(S)):
            print(verify(i), flush=True)
    elif cmd == "check":
        print(check(a[0], a[1:]))
    else:
        for i in a or sorted(os.listdir(S)):
            print(check(i, []), flush=True)

"""check PROPERTY: exit 0 held, 1 VIOLATION, 2 the machinery failed."""
import sys, time, traceback
from common import *
import checks, common


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                r.append(m.group(2))
    return r


def prune():
    """Binaries and scripts belong to one tree; keep only those of recent ones."""
    d = os.path.join(BUILD, "bin")
    if os.path.isdir(d):
        now = time.time()
        for f in os.listdir(d):
            p = os.path.join(d, f)
            try:
                if now - os.path.getmtime(p) > 3 * 3600:
                    os.unlink(p)
            except OSError:
                pass


def main():
    pid = sys.argv[1]
    t0 = time.time()
    prune()
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="model_checking", coverage={}, wall_s=0, assumptions=[])
    rc = 0
    try:
        try:
            ev["coverage"] = checks.CHECKS[pid]()
        except Violation as v:
            # a deviation counts only if it repeats
            again = None
            common.HUNG.clear()
            try:
                checks.CHECKS[pid]()
            except Violation as v2:
                again = v2
            if again is None:
                raise CheckError(f"not repeatable: {v.what}\n{v.detail}")
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{pid}.txt")
            with open(path, "w") as f:
                f.write(f"property {pid} seed {SEED} tier {TIER}\n{v.what}\n\n{v.detail}\n\nreproduce: VERIF_SEED={SEED} VERIF_TIER={TIER} ./check {pid}\n")
            print(v.what)
            print(f"VIOLATION property={pid} replay={path}")
            ev["coverage"] = dict(states=1, transitions=1, traces_validated_against_impl=1, samples=[v.what])
            ev["violations"] = 1
            rc = 1
    except CheckError as e:
        print(f"ERROR {pid}: {e}", file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    ev["wall_s"] = round(time.time() - t0, 1)
    if rc != 2:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        c = ev["coverage"]
        if rc == 0:
            print(f"{pid} held: " + ", ".join(f"{k}={v}" for k, v in c.items() if k != "samples") + f", {ev['wall_s']}s")
    sys.exit(rc)


main()

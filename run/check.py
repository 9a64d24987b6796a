#!/usr/bin/env python3
"""Decide one property on the current working tree of /repo.

1. The contracts: the functions of the property's units are extracted from /repo's
   source, joined with the contracts in units/ and given to the verifier.
2. The search: the real crates are built and run on generated inputs.

exit 0  nothing found        exit 1  VIOLATION line printed       else  no answer
"""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "run"))
import units  # noqa: E402


def run(cmd, timeout, env=None, cwd=VERIF):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out


def build_harness():
    code, out = run(["cargo", "build", "--release", "--offline"], 600, cwd=HARNESS)
    if code != 0:
        print(out[-4000:])
        print("error: the search program does not build against /repo")
        sys.exit(2)


def search(pid, seed, secs, tier, replay):
    exe = os.path.join(HARNESS, "target/release/harness")
    if os.path.exists(replay):
        os.remove(replay)
    code, out = run([exe, "search", pid, "--seed", str(seed), "--secs", str(secs), "--tier", tier, "--out", replay],
                    secs + 240)
    stats = {}
    for line in out.splitlines():
        if line.startswith("STATS "):
            stats = json.loads(line[6:])
    why = next((l[len("VIOLATION-FOUND "):] for l in out.splitlines() if l.startswith("VIOLATION-FOUND ")), None)
    if code is None or (code not in (0, 1)) or (code == 1 and why is None):
        # the process died: stack overflow or killed. The real code took it down.
        why = "the process running the real code ended abnormally (code %s)" % code
        with open(replay, "w") as f:
            f.write("property %s\n# %s\n# rerun: VERIF_SEED=%s harness search %s\n%s\n" % (pid, why, seed, pid, out[-2000:]))
    return stats, why


def conform(seed):
    """The contracts taken for granted, tried on the standard library itself."""
    code, out = run([os.path.join(HARNESS, "target/release/harness"), "conform", "--seed", str(seed)], 120)
    if code != 0:
        print(out[-2000:])
        print("error: the contracts of the standard library do not hold")
        sys.exit(2)
    return int(out.split("CONFORM ")[1].split()[0])


def known_findings(pid):
    lines = []
    exe = os.path.join(HARNESS, "target/release/harness")
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\S+) input=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            code, _ = run([exe, "replay", os.path.join(VERIF, m.group(2))], 60,
                          env={"HARNESS_NO_SKIP": "1", "HARNESS_CASE_SECS": "4"})
            if code != 0:
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, m.group(3)))
    return lines


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    secs = 150 if tier == "thorough" else 25
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, "%s.replay.txt" % pid)

    build_harness()
    proofs = units.verify(pid, tier)
    for line in known_findings(pid):
        print(line)
    failed = [u for u in proofs if u["status"] == "failed"]
    lost = [u for u in proofs if u["status"] == "lost"]
    proved = [u for u in proofs if u["status"] == "proved"]
    stats, why = search(pid, seed, secs, tier, replay)
    if not why and (failed or lost):
        # the contracts do not settle it: look longer for a failing input
        more, why = search(pid, seed + 7919, max(secs, 120 if failed else 60), tier, replay)
        for k in ("evaluations", "distinct_nontrivial", "unreadable", "known_skipped"):
            stats[k] = stats.get(k, 0) + more.get(k, 0)
    bounded = {
        "evaluations": stats.get("evaluations", 0),
        "distinct_nontrivial": stats.get("distinct_nontrivial", 0),
        "rule": units.RULES[pid[0]],
        "samples": stats.get("samples", []),
        "slowest_case_s": stats.get("slowest_case_s", 0),
        "debug_output_not_understood": stats.get("unreadable", 0),
        "texts_left_out_by_known_finding": stats.get("known_skipped", 0),
    }
    level = units.level(pid)
    cov = dict(bounded)
    assumptions = []
    if proofs:
        cov["obligations"] = sum(u["obligations"] for u in proofs)
        cov["discharged"] = sum(u["discharged"] for u in proofs)
        cov["checker_cmd"] = "; ".join(u["cmd"] for u in proofs)
        cov["trusted_base"] = sorted(set(a for u in proofs for a in u["trusted"]))
        cov["units"] = [
            {k: u[k] for k in ("unit", "status", "functions", "obligations", "discharged", "solver_ms", "dropped", "detail")}
            for u in proofs
        ]
        cov["trusted_base_tried"] = "%d comparisons of the contracts of characters and collections with std" % conform(seed)
        cov["backend"] = "Verus 0.2026.09.13, Z3"
        assumptions = sorted(set(a for u in proofs for a in u["assumptions"]))
    if level == "proof" and (lost or not proved):
        # the contracts could not be applied to the present source: only the search counts
        level = "exploration"
        cov["explanation"] = "contracts not applicable to this source, only the bounded search was decided"
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": assumptions + units.ASSUMPTIONS.get(pid, []),
        "wall_s": round(time.time() - t0, 2), "violations": 0,
    }
    code = 0
    if why:
        ev["violations"] = 1
        print("%s: %s" % (pid, why))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        code = 1
    elif failed:
        ev["violations"] = 1
        with open(replay, "w") as f:
            for u in failed:
                f.write("property %s\nfailed obligation in unit %s\n%s\n" % (pid, u["unit"], u["output"]))
        print("%s: failed obligations in %s" % (pid, ", ".join(u["unit"] for u in failed)))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
        code = 1
    else:
        for u in lost:
            print("note: unit %s could not be applied to the present source: %s" % (u["unit"], u["detail"]))
        print("%s: held; %d obligations discharged, %d cases" % (pid, cov.get("discharged", 0), bounded["evaluations"]))
    with open(os.path.join(EVID, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    sys.exit(code)


main()

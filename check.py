#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   decide property ID on /repo's current tree
check.py --replay FILE                run a recorded failing case again
check.py --setup                      build what does not depend on /repo's changes

Deciding step: Verus on functions extracted from /repo (proof/prove.py). A failed obligation is
followed by a search for a failing input on the real code (harness vh); functions without contract
are covered by the same harness as a labelled bounded stand-in."""
import argparse, fcntl, glob, json, os, shutil, subprocess, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "proof"))
BUILD = os.path.join(V, "build")
TARGET = os.path.join(BUILD, "harness")
VH = os.path.join(TARGET, "debug", "vh")
ENV = ". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s; cd %s/harness; "


def sh(cmd, timeout=None):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_harness():
    """always from /repo's current tree: forget what cargo knows about the crates under test"""
    with lock():
        for pat in ("banyan-*", "banyan-utils-*", "vh-*"):
            for d in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", pat)):
                shutil.rmtree(d, ignore_errors=True)
        r = sh((ENV % (TARGET, V)) + "cargo build --offline --locked", 800)
        return r.returncode == 0, r.stdout


def search(prop, seed, seconds, workers, outdir):
    """several seeds of the harness at once; returns (replay path or None, stats)"""
    skip = ["--skip", "tag_query_untagged"] if prop == "C12" else []
    ps = []
    for w in range(workers):
        out, prog = os.path.join(outdir, "%s-%d.replay" % (prop, w)), os.path.join(BUILD, "progress-%s-%d" % (prop, w))
        for f in (out, prog):
            if os.path.exists(f):
                os.remove(f)
        log = open(os.path.join(BUILD, "search-%s-%d.log" % (prop, w)), "w+")
        cmd = [VH, "run", prop, "--seed", str(seed * 1000 + w), "--seconds", str(seconds), "--out", out, "--progress", prog] + skip
        ps.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT), out, prog, log))
    found, stats = None, {"cases": 0, "evaluations": 0, "nontrivial": 0, "families": [], "samples": []}
    end = time.time() + seconds + 140
    for p, out, prog, log in ps:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -99
        log.seek(0)
        text = log.read()
        if rc == 0:
            j = json.loads(text.strip().splitlines()[-1])
            for k in ("cases", "evaluations", "nontrivial"):
                stats[k] += j[k]
            stats["families"] = j["families"]
            if not stats["samples"]:
                stats["samples"] = j["samples"]
        elif found is None:
            if not os.path.exists(out):
                # the process died: a crash, a stack overflow, or out of memory
                cur = open(prog).read().split() if os.path.exists(prog) else []
                if len(cur) == 3:
                    open(out, "w").write("property=%s\nfamily=%s\nseed=%s\nsize=%s\nwhat failed: the process ended with %d\n%s" % (prop, cur[0], cur[1], cur[2], rc, text[-2000:]))
            if os.path.exists(out):
                found = out
    return found, stats


def known(prop):
    p = os.path.join(V, "known_findings.txt")
    return [l.strip() for l in open(p) if l.startswith("known: property=%s " % prop)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--seconds", type=float)
    a = ap.parse_args()
    import prove
    if a.setup:
        ok, log = build_harness()
        print(log[-1500:])
        ok2 = prove.setup()
        return 0 if ok and ok2 else 2
    if a.replay:
        text = open(a.replay).read()
        if "\nfamily=" in text:
            ok, log = build_harness()
            if not ok:
                print(log[-3000:])
                return 2
            return subprocess.run([VH, "replay", a.replay]).returncode
        prop = text.split("property=", 1)[1].split()[0]
        r = prove.prove(prop, "quick")
        print(json.dumps(r["failed"], indent=1))
        return 1 if r["failed"] else 0
    t0 = time.time()
    prop, tier = a.id, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev_dir = os.path.join(V, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    seconds = a.seconds or (30 if tier == "quick" else 600)
    # deciding step
    try:
        pr = prove.prove(prop, tier)
    except Exception:
        pr = {"obligations": 0, "discharged": 0, "functions": [], "failed": [], "undecided": [{"function": "*", "why": traceback.format_exc()[-1500:]}],
              "trusted": [], "assumptions": [], "cmd": "", "solver_s": 0}
    t1 = time.time()
    built, log = build_harness()
    if not built:
        print("harness does not build:\n" + log[-3000:])
        return 2
    t2 = time.time()
    found, st = search(prop, seed, seconds, 6 if tier == "quick" else 8, ev_dir)
    violations = 0
    line = None
    if found:
        violations += 1
        replay = os.path.join(ev_dir, prop + ".replay")
        text = open(found).read()
        if pr["failed"]:
            text += "\nobligations that fail:\n" + json.dumps(pr["failed"], indent=1) + "\n"
        open(replay, "w").write(text)
        print(text[:4000])
        line = "VIOLATION property=%s replay=%s" % (prop, replay)
    elif pr["failed"]:
        violations += len(pr["failed"])
        replay = os.path.join(ev_dir, prop + ".obligation")
        open(replay, "w").write("property=%s\nobligations that fail on the current source:\n%s\nno failing input was found in %d cases on the real code\n" % (prop, json.dumps(pr["failed"], indent=1), st["cases"]))
        print(open(replay).read()[:6000])
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    for w in glob.glob(os.path.join(ev_dir, prop + "-*.replay")):
        os.remove(w)
    kf = []
    for l in known(prop):
        if "id=untagged-below-branch" in l:
            r = subprocess.run([VH, "known"], stdout=subprocess.PIPE, text=True)
            if r.stdout.strip() == "Ok([0, 1, 2, 3, 4, 5])":
                kf.append(l)
                print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" ", 2)[2]))
    level = prove.level(prop)
    cov = {
        "evaluations": st["evaluations"], "distinct_nontrivial": st["nontrivial"],
        "rule": "bounded stand-in and counterexample search on the real crates: seeded random cases of the harness families %s, %d cases in %.0f s on each of several seeds; evaluations counts oracle comparisons, a case is non-trivial when its own history made more than the minimal number of comparisons" % (",".join(st["families"]), st["cases"], seconds),
        "samples": st["samples"],
        "obligations": pr["obligations"], "discharged": pr["discharged"],
        "checker_cmd": pr["cmd"], "trusted_base": pr["trusted"],
        "functions_under_contract": pr["functions"], "obligations_failed": pr["failed"], "not_decided_by_proof": pr["undecided"],
        "back_end": "verus (z3)", "solver_s": pr["solver_s"],
        "bounded_cases": st["cases"], "known_findings": kf,
    }
    for k in ("vacuity", "extraction"):
        if k in pr:
            cov[k] = pr[k]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": pr["assumptions"],
          "wall_s": round(time.time() - t0, 2), "violations": violations,
          }
    s = json.dumps(ev, indent=1)
    open(os.path.join(ev_dir, prop + ".json"), "w").write(s)
    print("%s: %d/%d obligations discharged over %d functions (%d undecided), %d bounded cases; proof %.0f s, build %.0f s, search %.0f s" % (
        prop, pr["discharged"], pr["obligations"], len(pr["functions"]), len(pr["undecided"]), st["cases"], t1 - t0, t2 - t1, time.time() - t2))
    for u in pr["undecided"]:
        print("  not decided by proof: %s: %s" % (u["function"], u["why"].strip().splitlines()[-1][:200] if u["why"].strip() else ""))
    if line:
        print(line)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's working tree.

Exit 0: held on everything explored.  Exit 1: VIOLATION line on stdout.
"""
import json, os, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from xvc.concrete import Build, REPO

PY = "/opt/veriftools/pyvenv/bin/python3"
TIERS = {
    #            driver s, workers, prover limit s, extra search s when undischarged, hard limit s
    "quick": dict(drv=20, workers=5, prove=420, extra=120, hard=840),
    "thorough": dict(drv=240, workers=6, prove=2400, extra=600, hard=4000),
}


def prover(prop, tier, limit, box):
    out = os.path.join(box["dir"], "prove.json")
    cmd = [PY, "-m", "xvc.prove", prop, "--out", out, "--limit", str(limit), "--tier", tier]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=limit + 60)
        box["log"] = p.stdout[-20000:]
    except subprocess.TimeoutExpired as e:
        box["log"] = "prover stopped after %d s" % (limit + 60)
    try:
        box["res"] = json.load(open(out))
    except Exception as e:
        box["res"] = None
        box["log"] = (box.get("log") or "") + "\nno prover result: %s" % e
    box["wall_s"] = time.time() - t0


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in TIERS:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    K = TIERS[tier]
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    replay = os.path.join(evdir, "replay", prop + ".json")
    if os.path.exists(replay):
        os.remove(replay)
    b = Build(prop)
    box = {"dir": b.dir, "res": None, "log": ""}
    have_prover = os.path.exists(os.path.join(HERE, "xvc", "prove.py"))
    th = threading.Thread(target=prover, args=(prop, tier, K["prove"], box), daemon=True)
    try:
        if have_prover:
            th.start()
        drv = {"cases": 0, "fail": None, "unconfirmed": [], "samples": [], "wall_s": 0.0}
        built = b.build()
        if built:
            drv = b.search(seed, K["drv"], K["workers"])
        if have_prover:
            th.join()
        pr = box["res"] or {"obligations": [], "functions": [], "assumptions": [], "trusted": [], "unsupported":
                            ["prover gave no result: " + box.get("log", "")[-500:]], "solver_s": 0.0, "vacuity": []}
        obl = pr["obligations"]
        try:
            known_open = set(json.load(open(os.path.join(HERE, "xvc", "open_obligations.json"))).get(prop, []))
        except OSError:
            known_open = set()
        failed = [o for o in obl if o["status"] == "refuted" and o["name"] not in known_open]
        undec = [o for o in obl if o["status"] == "undecided" or o["name"] in known_open and o["status"] == "refuted"]
        # proved on the unchanged tree (everything not listed as open), no longer provable
        lost = [o for o in undec if o["name"] not in known_open and o.get("how") == "no proof found"]
        done = [o for o in obl if o["status"] == "proved"]
        bounded = [o for o in obl if o["status"] == "bounded"]
        degraded = bool(failed or [o for o in undec if o["name"] not in known_open] or pr.get("unsupported"))
        if have_prover and built and degraded and drv["fail"] is None:
            left = K["hard"] - (time.time() - t0) - 60
            secs = int(min(K["extra"], left))
            if secs > 5:
                d2 = b.search(seed + 1000, secs, 7)
                drv["cases"] += d2["cases"]
                drv["samples"] += d2["samples"]
                drv["unconfirmed"] += d2["unconfirmed"]
                drv["wall_s"] += d2["wall_s"]
                drv["fail"] = d2["fail"]
        viol = None
        if drv["fail"]:
            viol = dict(kind="concrete", **drv["fail"])
            viol["priv"] = b.priv
            viol["command"] = ("build driver/%s.cpp with /repo/src (see xvc/concrete.py); run: drv %d 1 %d"
                               % (prop.lower(), drv["fail"]["seed"], drv["fail"]["case"]))
        elif failed or lost:
            viol = dict(kind="obligation", message="proof obligation failed: %s (%s)" % (
                (failed + lost)[0]["name"], "refuted" if failed else "proved on the unchanged tree, no proof now"))
        if viol:
            viol["failed_obligations"] = failed + undec
            viol["prover_log"] = box.get("log", "")[-4000:]
            with open(replay, "w") as f:
                json.dump(viol, f, indent=1)
        claims_proof = have_prover and bool(obl)
        cov = {
            "obligations": len(obl), "discharged": len(done), "bounded": len(bounded),
            "undecided": [o["name"] for o in undec], "refuted": [o["name"] for o in failed],
            "checker_cmd": "python3 check.py %s --tier %s  (xvc.prove: verification conditions from clang's AST of %s/src; "
                           "polynomial normal form, z3 and cvc5)" % (prop, tier, REPO),
            "trusted_base": pr.get("trusted", []) + [
                "clang 18 AST", "xvc term rewriting and symbolic execution (this repository)", "z3 5.3.2", "g++ 13 (driver)"],
            "functions_under_contract": pr.get("functions", []),
            "functions_inlined": pr.get("inlined", []),
            "solver_s": pr.get("solver_s", 0.0),
            "backends": pr.get("backends", {}),
            "vacuity_checks": pr.get("vacuity", []),
            "out_of_reach": pr.get("unsupported", []),
            "obligation_list": [[o["name"], o["status"], o.get("how", ""), round(o.get("s", 0), 3)] for o in obl],
            # bounded stand-in / replay driver
            "evaluations": drv["cases"], "distinct_nontrivial": drv["cases"],
            "rule": "bounded: pseudo-random configurations and data drawn from the seed by driver/%s.cpp, every case "
                    "executes the real library under AddressSanitizer and compares it with an independent reference "
                    "computation; every case has its own seed and is counted once" % prop.lower(),
            "samples": drv["samples"] or ["none"],
            "driver_private_access": b.priv, "driver_error": b.error or "",
            "unconfirmed_driver_failures": drv["unconfirmed"],
        }
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof" if claims_proof else "exploration",
              "coverage": cov, "assumptions": pr.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        kf = os.path.join(HERE, "known_findings.txt")
        if os.path.exists(kf):
            for line in open(kf):
                if line.startswith("finding: property=%s " % prop):
                    print("KNOWN-FINDING: " + line[len("finding: "):].strip())
        print("%s: %d obligations, %d proved, %d bounded, %d undecided, %d refuted; driver: %d cases; %.1f s" % (
            prop, len(obl), len(done), len(bounded), len(undec), len(failed), drv["cases"], time.time() - t0))
        for u in pr.get("unsupported", [])[:10]:
            print("  outside the prover's reach: " + u[:200])
        for o in (undec + failed)[:10]:
            print("  %s: %s" % (o["status"], o["name"]))
        if not built:
            print("  driver not built: " + (b.error or "")[:500])
        if viol:
            print("  " + viol["message"])
            print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if viol["kind"] == "concrete" else
                                                         " no-failing-input-found"))
            return 1
        return 0
    finally:
        b.close()


if __name__ == "__main__":
    sys.exit(main())

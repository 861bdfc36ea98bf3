import re, argparse, importlib, json, os, sys, time

from vlib import boot, core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SMTVERIF_JOBS", "8")))
    ap.add_argument("-g", action="store_true", help="group failures (debugging)")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only", help="substring of the case key (debugging)")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    pid = a.pid.upper()
    os.makedirs(os.environ.get("MPLCONFIGDIR", "/tmp/smtverif-mpl"), exist_ok=True)
    pre = importlib.import_module("checks." + pid.lower() + "_pre") if os.path.exists(os.path.join(core.VERIF, "checks", pid.lower() + "_pre.py")) else None
    if pre is not None and not os.environ.get("SMTVERIF_PREDONE"):
        rc = pre.prepare(sys.argv[1:])
        if rc is not None:
            sys.exit(rc)
    how = boot.attach(os.environ.get("SMTVERIF_EXTDIR"))
    import numpy as np

    np.seterr(all="ignore")
    mod = importlib.import_module("checks." + pid.lower())
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        R = core.run_case(mod, rep["case"], rep.get("seed", seed))
        for f in R.fails:
            print("FAIL", f["key"], f["msg"], json.dumps(f["detail"], indent=1))
        print("%d failure(s)" % len(R.fails))
        sys.exit(1 if R.fails else 0)
    cases = list(mod.cases(tier))
    if a.only:
        cases = [c for c in cases if a.only in core.casekey(c)]
    tot, failures = core.explore(mod, cases, seed, a.jobs, getattr(mod, "TIMEOUT", 300), a.v)
    known = core.load_known(pid)
    hit, viol = {}, {}
    for i, f in failures:
        e = core.match_known(known, f["key"])
        if e is not None:
            hit.setdefault(e["what"], []).append(f["key"])
        else:
            viol.setdefault(f["key"], (i, f))
    wall = time.time() - t0
    level = mod.LEVEL
    cov = {
        "evaluations": tot.n.get("evaluations", 0),
        "distinct_nontrivial": len(tot.nontrivial),
        "rule": mod.RULE,
        "cases": len(cases),
        "comparisons": tot.n.get("comparisons", 0),
        "samples": [c for c in cases[:: max(1, len(cases) // 3)]][:4],
        "exhaustive": True,
        "bounds": mod.BOUNDS[tier] if isinstance(getattr(mod, "BOUNDS", ""), dict) else getattr(mod, "BOUNDS", ""),
        "native_code": how,
    }
    if level == "model_checking":
        cov["states"] = len(tot.states)
        cov["transitions"] = tot.n.get("transitions", 0)
        cov["traces_validated_against_impl"] = tot.n.get("traces_validated_against_impl", 0)
    for k in tot.n:
        if k not in cov and k != "case_s":
            cov[k] = tot.n[k]
    if tot.skipped:
        cov["skipped"] = tot.skipped
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(viol),
    }
    evdir = os.path.join(core.VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for what, keys in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s (%d case(s))" % (pid, what, len(keys)))
    for n, (key, (i, f)) in enumerate(sorted(viol.items())):
        path = os.path.join("evidence", "replay", "%s-%d.json" % (pid, n))
        with open(os.path.join(core.VERIF, path), "w") as g:
            json.dump({"property": pid, "seed": seed, "case": cases[i], "failure": f}, g, indent=1, default=repr)
        if n < 25 and not a.g:
            print("VIOLATION property=%s replay=%s  # %s: %s" % (pid, path, key, f["msg"][:300]))
            if a.v:
                print(json.dumps(f["detail"], indent=1).replace("\\n", "\n"))
    if a.g:
        grp = {}
        for key, (i, f) in sorted(viol.items()):
            grp.setdefault(("/".join(key.split("/")[:2]) + " .. " + key.split("/")[-1][-40:], re.sub(r"[-+]?\d[\d.]*(e[-+]?\d+)?", "#", f["msg"][:200])[:120]), []).append((key, f))
        for (k, m), l in sorted(grp.items()):
            print("%4d %s | %s | e.g. %s" % (len(l), k, l[0][1]["msg"][:250], l[0][0]))
            if a.v and l[0][1]["detail"]:
                print(json.dumps(l[0][1]["detail"], indent=1).replace("\\n", "\n"))
    if len(viol) > 25 and not a.g:
        print("... %d more violation(s)" % (len(viol) - 25))
    print("%s %s: %d cases, %s, %d violation(s), %d known, %.1fs (cpu %.1fs)" % (
        pid, tier, len(cases), ", ".join("%s=%s" % (k, cov[k]) for k in ("states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial", "comparisons") if k in cov),
        len(viol), sum(map(len, hit.values())), wall, tot.n.get("case_s", 0)))
    sys.exit(1 if viol else 0)


if __name__ == "__main__":
    main()

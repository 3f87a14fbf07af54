"""Parent process: enumerates the cases of a check, spreads them over worker processes,
merges the results, writes evidence and prints the verdict.  Imports no TensorFlow."""
import argparse, importlib, json, os, re, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


def known_findings(prop):
    """lines 'known: property=<id> key=<key> <text>'; 'fixed:' lines suppress nothing"""
    out = {}
    for l in open(KNOWN) if os.path.exists(KNOWN) else []:
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module("mc.checks." + a.prop.lower())
    if a.replay:
        cases = [json.load(open(a.replay))["case"]]
    else:
        cases = list(mod.cases(a.tier))
    if a.list:
        print(len(cases)); [print(json.dumps(c)) for c in cases[:5]]; return 0
    jobs = max(1, min(a.jobs, len(cases)))
    with tempfile.TemporaryDirectory(prefix="mc_") as tmp:
        json.dump(cases, open(tmp + "/cases.json", "w"))
        env = dict(os.environ, VERIF_TIER=a.tier, PYTHONDONTWRITEBYTECODE="1", MC_TMP=tmp)
        ps = []
        for i in range(jobs):
            ps.append(subprocess.Popen([sys.executable, "-B", "-m", "mc.worker", a.prop, a.tier, str(i), str(jobs), tmp],
                                       cwd=HERE, env=env, stdin=subprocess.DEVNULL,
                                       stdout=open(f"{tmp}/o{i}", "w"), stderr=subprocess.STDOUT))
        err = False
        for i, p in enumerate(ps):
            if p.wait() != 0:
                if not err:
                    sys.stderr.write(f"worker {i} exit {p.returncode}\n" + open(f"{tmp}/o{i}").read()[-2500:] + "\n")
                err = True
        res = [json.load(open(f"{tmp}/r{i}.json")) for i in range(jobs) if os.path.exists(f"{tmp}/r{i}.json")]
    viol = [v for r in res for v in r["violations"]]
    known = known_findings(a.prop)
    seenk = sorted({v["key"] for v in viol if v.get("key") in known})
    new = [v for v in viol if v.get("key") not in known]
    for k in seenk:
        print(f"KNOWN-FINDING: property={a.prop} {known[k]}")
    if err and not new:
        sys.stderr.write("check error: a worker did not finish\n")
        return 2
    # evidence
    seen, states = set(), set()
    for r in res:
        seen.update(r["seen"]); states.update(r["states"])
    cov = dict(evaluations=sum(r["execs"] for r in res), distinct_nontrivial=len(seen),
               comparisons=sum(r["comparisons"] for r in res), cases=sum(r["cases"] for r in res),
               rule=mod.RULE, exhaustive=True,
               samples=[s for r in res for s in r["samples"]][:6])
    lvl = mod.LEVEL
    if lvl == "model_checking":
        cov.update(states=len(states), transitions=sum(r["trans"] for r in res),
                   traces_validated_against_impl=sum(r["traces"] for r in res))
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0), level=lvl, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2), violations=len(new))
    if not a.replay:
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{HERE}/evidence/{a.prop}.json", "w"), indent=1)
    print(f"{a.prop} {a.tier}: cases={cov['cases']} executions={cov['evaluations']} distinct={len(seen)} "
          f"comparisons={cov['comparisons']}" + (f" states={cov['states']} transitions={cov['transitions']}" if lvl == "model_checking" else "")
          + f" wall={ev['wall_s']}s")
    if new:
        os.makedirs(HERE + "/replays", exist_ok=True)
        path = f"{HERE}/replays/{a.prop}.json"
        v = min(new, key=lambda v: len(json.dumps(v["case"])))
        json.dump(dict(property=a.prop, case=v["case"], message=v["msg"], count=len(new)), open(path, "w"), indent=1)
        for w in new[:5]:
            print("  ", w["msg"][:600], "| case", json.dumps(w["case"])[:300])
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())

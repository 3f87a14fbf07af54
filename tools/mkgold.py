"""Builds mc/gold/tables.json from the parameter files of the base commit (run once; committed)."""
import json, subprocess
out = {}
for s in ("Urban", "Dense_Urban", "Sub_Urban"):
    for l in ("LOS", "NLOS"):
        for b in ("S", "Ka"):
            for d in ("UL", "DL"):
                n = f"{s}_{l}_{b}_band_{d}.json"
                t = subprocess.run(["git", "-C", "/repo", "show", "9545703:OpenNTN/models/" + n], capture_output=True, check=True).stdout
                out[n[:-5]] = {k: float(v) for k, v in json.loads(t).items()}
json.dump(out, open("/verif/mc/gold/tables.json", "w"), sort_keys=True, indent=0)

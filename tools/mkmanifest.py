#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules and the texts below."""
import ast, json
NOTE = {
"P01": "every scenario x band edge x direction x elevation incl. rounding neighbours x all LoS patterns of the bound; oracle: committed copy of the 3GPP tables (mc/gold), LoS rows bound to the link's own state. Trusts the copy of the tables.",
"P02": "state graph of update histories (LoS requests, indoor patterns, redraws) explored to the depth bound on the real object; draws placed below/at/above the probability. Trusts that all draws pass the intercepted random functions.",
"P03": "all update histories up to the depth bound over one and two items plus atmosphere; each reached real state compared with a fresh object and with the reference model.",
"P04": "all histories of calls and updates up to the depth bound; every step compared with a fresh model replaying (last redraw, call) under the same draws.",
"P05": "grid of positions incl. axis, opposite and coincident horizontal placements, heights mixed over batch and satellite; numpy reference geometry.",
"P06": "all LoS patterns x switches x scenarios x elevations; each term recomputed. One recorded finding (shadowing twice in the channel gain).",
"P07": "full cross of frequencies, elevations and per-parameter alphabets plus update histories of atmospheric parameters; independent ITU-R formulas.",
"P08": "spread and one-hot draws push every entry of the correlation factors through the real generator; statistics are exact linear images, not estimates.",
"P09": "draw policies incl. extremes x all scenarios/bands/elevations x LoS patterns; reference power-delay profile.",
"P10": "as P09 for cluster and ray angles; wrap boundaries visited by chosen LoS angles and spreads.",
"P11": "all permutations reachable from the coupling draws of the bound; multiset oracle per cluster; XPR exact per ray.",
"P12": "full product of array kinds, orientations and directions in the bound; direct numpy evaluation of the TR 38.901 sum over rays.",
"P13": "power orders (all positions of the two strongest clusters), delays, K factors; reference paths compared one by one.",
"P14": "velocity x height x switch alphabets; every sample compared with the phasor prediction.",
"P15": "all 16 height patterns over batch and satellites; rotation judged against the reference and pairwise.",
"P16": "every scenario class x direction x switches x shapes; channel output recomposed from the real public stages and gains.",
"P17": "all sub-batches and permutations of the bound with per-link draws, and single-draw deviations for independence.",
"P18": "all arrays of the size bound; geometry oracle written out per element.",
"P19": "dense direction grid with all edges per element kind, slant, precision and shape.",
"P20": "all 256 subsets of omitted arguments, limits grids and extreme draws. One recorded finding (interferer variant unusable).",
"P21": "all shapes of the bound; direct sums.",
"P22": "grids over each helper's domain incl. boundaries; direct definitions.",
"P23": "limit grids for construction; complete two-state graph of topology acceptance with all 64 item subsets on the real objects.",
"P24": "one history per configuration covering the ordered pairs of execution modes, against fresh eager models under equal draws; both precisions compared. Trusts that TensorFlow executes a traced function as traced.",
"P25": "explicit-state exploration: all host files of the bound are states, runs of the real installer are transitions, plus injected faults: unreadable or missing files, and a kill or a full disk after every number of written bytes and at the rename, each followed by a rerun. The framework location is a stub pointing to a scratch tree.",
"P26": "all profiles x parameters x draws against the closed-form process; covariance recovered exactly as a linear map rather than estimated. Of the satellite Doppler of the TDL model (marked experimental) only the scaling with carrier, elevation and orbit is judged; calling CDL (documented as not implemented) are outside.",
"P29": "the figures of the real plotting methods, read back through matplotlib, compared with the model state and the harness' own geometry. Trusts matplotlib to draw the data it is given.",
"P28": "whole histories run with the real generators and compared bitwise between runs; trusts TensorFlow's generators. XLA ignores TensorFlow's seed, so there only the differences between realisations are judged.",
"P27": "whole transmission through the framework's own OFDM and time-domain blocks; the oracle is the sum of the transmitted signal over the model's own impulse response, in numpy. Trusts Sionna's blocks and, for the impulse response itself, P12-P16 and P26.",
}
TECH = {"model_checking": "bounded explicit-state exploration of operation histories on the real objects, each state checked against a reference model",
        "exploration": "bounded exhaustive exploration of configurations, inputs and random-draw choices on the real code under a controlled random source, against a reference model"}
checks = []
for i in range(1, 30):
    p = f"P{i:02d}"
    t = ast.parse(open(f"mc/checks/{p.lower()}.py").read())
    lvl = next(n.value.value for n in t.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) == "LEVEL")
    checks.append(dict(property=p, quick_cmd=f"bash run.sh {p} --tier quick", thorough_cmd=f"bash run.sh {p} --tier thorough",
                       technique=TECH[lvl], level=lvl, level_note=NOTE[p]))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
               notes="Checks import the package from /repo (linked into the installed sionna as tr38811 by /opt/vp/build.sh); no hooks in /repo: random draws are intercepted at tf.random.* and sionna's tf_rng."),
          open("MANIFEST.json", "w"), indent=1)

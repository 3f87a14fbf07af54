"""P10: ray angles against the reference cluster-angle procedure on every link."""
import itertools
from .. import raycommon as rc
LEVEL = "exploration"
RULE = ("scenario x band x direction x tabulated elevation x LoS patterns (mixed in every batch) x satellite/low-platform heights x terminal "
        "directions at the wrap-around x LSP alphabets x random draws; angles of each cluster are compared as sets (coupling is P11)")
ASSUMPTIONS = ["golden tables", "outdoor terminals", "cluster powers of the LSPs as in P09", "the sign draws are uniform integers in {0,1}, 0 meaning -1"]
POL = [["table", 0], ["const", 0.4, 1.0], ["const", 0.7, -2.0], ["table", 5]]
# terminals around the sub-satellite point: azimuths 0, 90, 180, -90, just around 180, and diagonal
UTS = [[[5e4, 0., 1.5], [0., 7e4, 1.5], [-6e4, 1e-3, 1.5]], [[-6e4, -40., 2.], [100., -8e4, 1.5], [300., 300., 1.5]]]
HS = [[[600e3, 160e3], [2000., 1500e3]], [[159999., 300e3], [35786e3, 8000.]]]


def cases(tier):
    for i, j, c in rc.configs(tier):
        yield dict(c, k=i + j, n=2 if tier == "quick" else 8)


def run_case(ctx, c):
    import numpy as np
    from .. import build as b, ref
    tab = ref.Tab(c["scn"], c["fc"], c["dir"], c["elev"])
    for pi, pat in enumerate(rc.pats() + ([rc.BIG] if c["elev"] % 40 == 0 else [])):
        prec = "single" if (c["k"] + pi) % 4 == 3 else "double"
        bs = np.zeros((2, 2, 3)); bs[..., 2] = HS[(pi + c["k"]) % 2]; bs[:, 1, :2] = [30., -10.]
        t = b.topo(2, 2, 3, ut=UTS, bs=bs) if pi < 2 else b.topo(*pat.shape)
        g = b.geo(c["elev"], t)
        sc, gen = rc.setup(c, pat, t, prec)
        los = sc.los.numpy()
        for q in range(c["n"]):
            l = rc.lsps(los.shape, q + c["k"])
            for pol in POL:
                b.RNG.set(pol)
                w = ref.rays(tab, g, los, t["in_state"], l, b.RNG)
                r = rc.generate(gen, l, prec)
                ctx.run()
                tag = f"{c['scn']} {c['fc']/1e9}GHz {c['dir']} {c['elev']}deg draws={pol} prec={prec}"
                ex = np.broadcast_to(ref.mask(tab, los, tab.C()), r["powers"].shape)
                for a in ("aoa", "aod", "zoa", "zod"):
                    v = np.degrees(r[a].astype(float))
                    lo = 0 if a[0] == "z" else -180
                    ctx.check((v >= lo - 1e-4).all() and (v <= 180 + 1e-4).all(), f"{a} outside [{lo}, 180] degrees {tag}: {v.min()} {v.max()}")
                    ctx.check(v.shape == w[a].shape, f"{a} has shape {v.shape}, expected {w[a].shape}")
                    ww = w[a]
                    if a[0] == "a":           # compare relative to the cluster centre, away from the wrap-around
                        cen = ww[..., :1]
                        v, ww = (v - cen + 180) % 360 - 180, (ww - cen + 180) % 360 - 180
                        # offsets beyond +-180 of the first ray cannot occur: cluster spreads are below 50 degrees
                    v, ww = np.sort(v, -1), np.sort(ww, -1)
                    ctx.close(f"{a} of the rays of a cluster, in degrees {tag}", np.where(ex[..., None], v, 0), np.where(ex[..., None], ww, 0), 0, 1e-5 if prec == "double" else .15)
                ctx.seen(np.round(w["aoa"], 3), np.round(w["zoa"], 3))

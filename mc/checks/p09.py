"""P09: cluster delays and powers against the reference procedure on every link."""
import itertools
from .. import raycommon as rc
LEVEL = "exploration"
RULE = ("scenario x band x direction x tabulated elevation x LoS patterns (mixed in every batch) x alphabets of delay spread and K-factor x random "
        "draws (tables, constants incl. smallest and largest); non-trivial: distinct delay/power tensors")
ASSUMPTIONS = ["golden tables", "outdoor terminals (indoor terminals have no clusters; the code documents them as unsupported)",
               "one uniform draw per cluster in (1e-6, 1) and one normal draw per cluster"]
POL = [["table", 0], ["table", 1], ["const", 0.5, 0.], ["const", 0.0, 3.], ["const", 0.99999, -3.], ["table", 2]]


def cases(tier):
    for i, j, c in rc.configs(tier):
        yield dict(c, k=i + j, n=1 if tier == "quick" else 12)


def run_case(ctx, c):
    import numpy as np
    from .. import build as b, ref
    tab = ref.Tab(c["scn"], c["fc"], c["dir"], c["elev"])
    C = tab.C()
    for pi, pat in enumerate(rc.pats() + ([rc.BIG] if c["elev"] % 30 == 0 else [])):
        t = b.topo(*pat.shape)
        prec = "single" if (c["k"] + pi) % 4 == 3 else "double"
        sc, gen = rc.setup(c, pat, t, prec)
        los = sc.los.numpy()
        for q in range(c["n"]):
            l = rc.lsps(los.shape, q + c["k"])
            for pol in POL:
                b.RNG.set(pol)
                x = 1e-6 + (1 - 1e-6) * b.RNG.u(pat.shape + (C,)); z = b.RNG.z(pat.shape + (C,))
                r = rc.generate(gen, l, prec)
                ctx.run()
                tag = f"{c['scn']} {c['fc']/1e9}GHz {c['dir']} {c['elev']}deg draws={pol}"
                d, p = r["delays"], r["powers"]
                m = ref.mask(tab, los, C)
                ctx.check(np.isfinite(d).all() and np.isfinite(p).all(), "delays or powers not finite " + tag)
                ctx.close("first delay " + tag, d[..., 0], 0 * d[..., 0], 0, 0)
                ctx.check((np.diff(d, axis=-1) >= 0).all(), "delays decrease " + tag)
                ctx.check((p >= 0).all(), "negative power " + tag)
                ctx.close("sum of cluster powers " + tag, p.sum(-1), np.ones(los.shape), 1e-11 if prec == "double" else 1e-5)
                ctx.check((p[~m] == 0).all(), lambda: f"power of a cluster beyond the tabulated number {tag}: {p[~m].tolist()}")
                wd, du = ref.delays(tab, los, l["DS"], l["K"], x)
                wp, _ = ref.powers(tab, los, l["DS"], l["K"], du, z)
                rt = 1e-9 if prec == "double" else 2e-3
                ex = np.broadcast_to(m, d.shape)
                sc_ = l["DS"][..., None]
                ctx.close("delays / delay spread " + tag, np.where(ex, d / sc_, 0), np.where(ex, wd / sc_, 0), rt, rt)
                ctx.close("powers " + tag, p, wp, rt, 1e-10 if prec == "double" else 1e-4)
                last = np.where(ex, d, -1).max(-1, keepdims=True)
                ctx.check((np.where(ex, last, d) >= last).all(), "an unused cluster precedes a used one " + tag)
                ctx.seen(np.round(wd * 1e9, 6), np.round(wp, 6))

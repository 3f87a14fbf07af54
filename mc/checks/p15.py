"""P15: Faraday rotation per link."""
import itertools
LEVEL = "exploration"
RULE = ("heights below/at/above 600 km in every combination over 2 batch examples x 2 base stations (16 patterns) x carriers x moving end x LoS x "
        "polarisations; coefficients compared with the reference and, pairwise, with the unrotated ones; non-trivial: distinct coefficient tensors")
ASSUMPTIONS = ["rotation angle 108 degrees / (f in GHz)^2"]
FC = [1.9e9, 2e9, 2.7e9, 4e9, 19e9, 39e9]


def cases(tier):
    for p, (fi, f), mv in itertools.product(range(16), enumerate(FC), ("rx", "tx")):
        if tier == "quick" and (p + fi + (mv == "tx")) % 3:
            continue
        yield dict(pat=p, fc=f, moving=mv, k=p + fi)


def run_case(ctx, c):
    import numpy as np
    from .. import coefcommon as cc
    lo, hi = [599.9e3, 160e3, 1.], [600e3, 36e6, 601e3]
    bits = [(c["pat"] >> i) & 1 for i in range(4)]
    H = np.array([hi[(i + c["k"]) % 3] if x else lo[(i + c["k"]) % 3] for i, x in enumerate(bits)]).reshape(2, 2)
    TX, RX = (2, 3) if c["moving"] == "rx" else (3, 2)
    for los, kinds in itertools.product((True, False), ((dict(), dict(pol="dual", typ="VH")), (dict(typ="H"), dict(typ="H")), (dict(pol="dual", typ="cross"), dict(pol="dual", typ="VH")))):
        q = cc.make(2, TX, RX, 2, c["k"], los=los, h=H, moving=c["moving"], fc=c["fc"])
        tag = f"heights={H.tolist()} {c['fc']/1e9}GHz moving={c['moving']} LoS={los} {kinds}"
        h = cc.judge(ctx, q, *kinds, 1, 1e6, False, tag)[0]
        hn = cc.run(dict(q, h=np.full((2, 2), 5e5)), *kinds, 1, 1e6, False)[0]
        ctx.run()
        ctx.seen(np.round(h, 6))
        for x in np.ndindex(2, TX, RX):
            sat = H[x[0], x[1] if c["moving"] == "rx" else x[2]] >= 600e3
            if not sat:
                ctx.close(f"link {x} without satellite is rotated {tag}", h[x], hn[x], 1e-10, 1e-12)
            elif c["fc"] < 5e9:
                ctx.check(np.abs(h[x] - hn[x]).max() > 1e-6 * np.abs(hn).max(), f"satellite link {x} is not rotated {tag}")
    # power: isotropic dual-polarised arrays at both ends, single ray, XPR 1: total power is unchanged by the rotation
    q = cc.make(2, TX, RX, 1, c["k"], los=True, K=1e9, h=H, moving=c["moving"], fc=c["fc"])
    q["txo"] *= 0; q["rxo"] *= 0
    kinds = (dict(pol="dual", typ="VH"), dict(pol="dual", typ="VH"))
    h = cc.run(q, *kinds, 1, 1e6, False)[0]
    ctx.run()
    ctx.close("power over both polarisations of a LoS link", (np.abs(h) ** 2).sum((3, 4, 5, 6)), np.full((2, TX, RX), 2.), 1e-3)

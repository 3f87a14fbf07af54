"""P12: coefficients of every link and antenna pair against an independent evaluation of the TR 38.901 step-11 sum."""
import itertools
LEVEL = "exploration"
RULE = ("all pairs of array kinds (polarisation, pattern, shape, spacing) at transmitter and receiver x moving end x orientation assignments x "
        "LoS pattern x batch/transmitter/receiver counts x carrier; every coefficient is compared; non-trivial: distinct coefficient tensors")
ASSUMPTIONS = ["ray and LoS angles off the poles of the local coordinate systems", "initial phases as reported by the generator's debug output"]
SHP = [(1, 1, 1), (2, 1, 2), (1, 2, 1), (2, 2, 3), (1, 3, 2)]


def cases(tier):
    from ..coefcommon import KINDS
    n = 0
    for i, j in itertools.product(range(len(KINDS)), repeat=2):
        for k in range(3 if tier == "quick" else 24):
            n += 1
            yield dict(tx=i, rx=j, k=n, moving=("rx", "tx")[(n + i) % 2], shp=SHP[(n + j) % 5] if n % 40 != 21 else (5, 2, 7) if n % 80 == 21 else (2, 9, 3), fc=[2e9, 3.7e9, 20e9, 39e9][n % 4],
                       prec="single" if n % 11 == 5 else "double")
    for k, (i, j) in enumerate([(9, 1), (0, 9), (9, 9), (10, 2), (3, 10), (11, 4), (5, 11)]):
        yield dict(tx=i, rx=j, k=n + k, moving=("rx", "tx")[k % 2], shp=[(1, 1, 2), (2, 2, 1)][k % 2] if i != j else (1, 1, 1), fc=[2e9, 39e9][k % 2], prec="double")


def run_case(ctx, c):
    import numpy as np
    from .. import coefcommon as cc
    KINDS = cc.KINDS + cc.BIG
    B, TX, RX = c["shp"]
    for los in (None, True, False):
        q = cc.make(B, TX, RX, 3, c["k"], los=los, moving=c["moving"], fc=c["fc"])
        if c["k"] % 5 == 2 and c["prec"] == "double":
            q["d3"] = q["d3"] * 21                                    # up to a geostationary satellite near the horizon
        if c["prec"] == "single":
            q["d3"] = q["d3"] * 0 + 40 * 299792458.0 / c["fc"] + .1    # phases of 1e7 rad do not exist in single precision
        tag = f"tx={KINDS[c['tx']]} rx={KINDS[c['rx']]} moving={c['moving']} {c['fc']/1e9}GHz"
        h = cc.judge(ctx, q, KINDS[c["tx"]], KINDS[c["rx"]], 1, 1e6, False, tag, c["prec"])[0]
        ctx.seen(np.round(h, 6))

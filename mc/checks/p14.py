"""P14: time evolution: Doppler of terminals and satellites."""
import itertools
LEVEL = "exploration"
RULE = ("velocity alphabet (axes, diagonal, zero, 3 speeds) x moving end x heights below/at/above 600 km mixed over batch and satellite x elevation "
        "x satellite Doppler on/off x random direction x sampling frequency/length (3 to 9 and 2100 to 3500 samples); all samples compared; non-trivial: distinct time series")
ASSUMPTIONS = ["direction of the satellite: one uniform draw u per batch example, factor cos(2 pi u)"]
V = [[0, 0, 0], [30., 0, 0], [0, -30., 0], [0, 0, 8.], [300., -200., 50.], [7500., 100., 0.], [-1., 1., -.5]]
H = [[[599999., 600000.], [1500e3, 300e3]], [[600001., 20e3], [36e6, 600e3]], [[8e3, 160e3], [599e3, 1e6]]]
U = [0., .25, .5, .13, .77]


def cases(tier):
    n = 0
    for (vi, v), (hi, h), dop, mv in itertools.product(enumerate(V), enumerate(H), (True, False), ("rx", "tx")):
        n += 1
        for fs, T in (((1e6, 4), (15e3, 3)) if tier == "quick" else ((1e6, 4), (15e3, 3), (1e3, 6), (30.72e6, 9))):
            yield dict(v=v, h=h, dop=dop, moving=mv, fs=fs, T=T, fc=(2e9, 20e9)[n % 2], elev=(10., 45., 70., 90.)[n % 4], u=U[n % 5], k=n)


    for i, (h, dop, mv) in enumerate(itertools.product(H, (True, False), ("rx", "tx"))):      # long series
        if tier != "quick" or i % 4 == 1:
            yield dict(v=V[5 - i % 2], h=h, dop=dop, moving=mv, fs=(1e6, 48e3)[i % 2], T=2100 + 700 * (i % 3), fc=2e9, elev=70., u=.13, k=i)


def run_case(ctx, c):
    import numpy as np
    from .. import coefcommon as cc, ref
    # cosines are taken in single precision in places: phases are exact to about 2e-7 of the accumulated rotation
    tol = 1e-8 + 1e-12 * 2 * np.pi * c['T'] / c['fs'] * 27e3 * c['fc'] / 1e9
    for los in (True, False):
        q = cc.make(2, 2, 2, 2, c["k"], los=los, h=c["h"], moving=c["moving"], fc=c["fc"], elev=c["elev"], dop=c["dop"])
        q["v"] = np.array([[c["v"], c["v"][::-1]], [c["v"][1:] + c["v"][:1], c["v"]]], float)
        kinds = (dict(), dict(pol="dual", typ="VH"))
        tag = f"v={c['v']} h={c['h']} satellite Doppler={c['dop']} moving={c['moving']} {c['fc']/1e9}GHz elev={c['elev']} u={c['u']} fs={c['fs']} LoS={los}"
        pol = ["const", c["u"], 0.]
        # a single phase for all rays would hide nothing here: time dependence is per ray
        h, tau, wh, wt, phi, u = cc.judge(ctx, q, *kinds, c["T"], c["fs"], False, tag, pol=pol, what="time series", tol=tol)
        # at time 0 independent of velocity and satellite Doppler
        q0 = dict(q, v=q["v"] * 0, dop=False)
        h0 = cc.run(q0, *kinds, c["T"], c["fs"], False, pol=pol)[0]
        ctx.run()
        m = np.abs(h0).max()
        ctx.close("coefficients at time 0 depend on velocity " + tag, h[..., 0], h0[..., 0], 0, 1e-9 * m)
        ctx.close("static channel changes over time " + tag, h0, h0[..., :1] + 0 * h0, 0, 1e-9 * m)
        # switching the satellite part off: exactly the rotation by the satellite Doppler of each link is removed
        hoff = cc.run(dict(q, dop=False), *kinds, c["T"], c["fs"], False, pol=pol)[0]
        t = np.arange(c["T"]) / c["fs"]
        for x in np.ndindex(2, 2, 2):
            bs = x[1] if c["moving"] == "rx" else x[2]
            f = cc.fsat(q, x[0], bs, u) if q["h"][x[0], bs] >= 600e3 else 0.
            ctx.close(f"satellite Doppler of link {x} {tag}", h[x], hoff[x] * np.exp(2j * np.pi * f * t), 1e-6, 2 * (tol + cc.rounding(q)) * m)
        ctx.seen(np.round(h, 5))
        # one single ray: constant magnitude
    s = cc.make(1, 1, 2, 1, c["k"], los=False, h=c["h"][0][1], moving=c["moving"], fc=c["fc"], elev=c["elev"], dop=c["dop"], vel=float(np.linalg.norm(c["v"])), M=20)
    for a in ("aoa", "aod", "zoa", "zod"):
        s[a] = np.broadcast_to(s[a][..., :1], s[a].shape).copy()
    h = cc.run(s, {}, {}, c["T"], c["fs"], False)[0]
    ctx.run()
    ctx.close("magnitude of parallel rays over time", np.abs(h), np.abs(h[..., :1]) + 0 * np.abs(h), 1e-8, 1e-12)

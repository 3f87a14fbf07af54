"""P05: geometry of every link against the reference formulas."""
import itertools
LEVEL = "exploration"
RULE = ("terminal positions from a grid covering all quadrants, both axes, the point below the satellite and large distances x satellite "
        "offsets and heights (different per batch example and satellite) x elevation angles x indoor patterns; non-trivial: distinct "
        "(position, satellite, elevation) tuples whose distance or angle differs")
ASSUMPTIONS = ["satellites are above the terminals"]
HS = [[[600e3, 1200e3], [36e6, 500.]], [[160e3, 600e3], [601e3, 8e3]]]


def cases(tier):
    els = (10., 33., 50., 77.7, 90.) if tier == "quick" else [10. + 2.5 * i for i in range(33)]
    for (i, e), hs, d, off in itertools.product(enumerate(els), (0, 1), ("uplink", "downlink"), (0, 1, 2)):
        yield dict(elev=e, hs=hs, dir=d, off=off, prec="single" if (i + hs + off) % 4 == 3 else "double", scn=("urb", "dur", "sur")[(i + off) % 3])


def run_case(ctx, c):
    import numpy as np
    from .. import build as b, ref
    g1 = [0., 1., -1., 250., -250., 3e4, -3e4, 2e6]
    pts = [(x, y) for x in g1 for y in g1]
    fc = 2e9
    pr = c["prec"]
    sc = b.scenario(c["scn"], fc, c["dir"], c["elev"], precision=pr)
    off = [0., 250., -3e4][c["off"]]
    bs = np.zeros((2, 2, 3))
    bs[..., 2] = HS[c["hs"]]
    bs[0, 1, :2] = off; bs[1, 0, 0] = -off; bs[1, 1, :2] = (off, -off / 2)
    rt, at = (1e-9, 1e-7) if pr == "double" else (3e-6, 2e-2)
    per = 4 if (c["hs"] + c["off"]) % 3 else 32
    for i in range(0, len(pts), 2 * per):
        q = pts[i:i + 2 * per]
        ut = np.array([[x, y, 1.5 + k] for k, (x, y) in enumerate(q)], float).reshape(2, per, 3)
        ind = np.array([[(i // 8 + k) % 3 == 0 for k in range(per)], [(i // 8 + k) % 2 == 0 for k in range(per)]])
        t = b.topo(2, 2, per, ut=ut, bs=bs, indoor=ind)
        g = b.geo(c["elev"], t)
        b.RNG.set(["table", i % 7])
        sc.set_topology(**b.tt(t, pr))
        ctx.run()
        n = lambda a: getattr(sc, a).numpy()
        tag = f"(elevation {c['elev']}, batch {i//8})"
        ctx.close("distance_2d " + tag, n("distance_2d"), g.d2, rt, at)
        ctx.close("distance_3d " + tag, n("distance_3d"), g.d3, 1e-11 if pr == "double" else 2e-4, at if pr == "double" else 200.)
        ctx.close("matrix_ut_distance_2d " + tag, n("matrix_ut_distance_2d"), g.uu, rt, at)
        ctx.close("h_ut", n("h_ut"), ut[..., 2], 1e-6)
        ctx.close("h_bs", n("h_bs"), bs[..., 2], 1e-6)
        for a, w in (("los_aod", g.aod), ("los_aoa", g.aoa), ("los_zod", g.zod), ("los_zoa", g.zoa)):
            v = n(a)
            ctx.check(((v >= 0) & (v <= 360)).all(), f"{a} outside [0, 360] {tag}: {v.min()} {v.max()}")
            dd = (v - w + 180) % 360 - 180
            lim = 1e-9 if pr == "double" else 2e-3
            skip = (g.d2 < 1e-9) if a in ("los_aod", "los_aoa") else np.zeros_like(g.d2, bool)   # azimuth undefined below the satellite
            ctx.check((np.abs(dd)[~skip] <= lim).all(), lambda: f"{a} {tag}: got {v.tolist()}, expected {w.tolist()}")
        # opposite directions, also where the azimuth is undefined
        d = ref.sph(np.radians(n("los_zod")), np.radians(n("los_aod")))[0]
        r = ref.sph(np.radians(n("los_zoa")), np.radians(n("los_aoa")))[0]
        ctx.close("departure direction = -arrival direction " + tag, d, -r, 0, 1e-11 if pr == "double" else 1e-4)
        i2, o2, i3, o3 = n("distance_2d_in"), n("distance_2d_out"), n("distance_3d_in"), n("distance_3d_out")
        idm = np.broadcast_to(ind[:, None], i2.shape)
        ctx.check((i2[~idm] == 0).all() and (i3[~idm] == 0).all(), "indoor distance of an outdoor terminal is not 0")
        ctx.check(((i2 >= 0) & (i2 <= 10)).all(), "indoor distance outside [0, 10] m")
        ctx.check((i2[idm] > 0).all(), "indoor distance of an indoor terminal is not drawn")
        ctx.close("indoor + outdoor 2D", i2 + o2, n("distance_2d"), rt, at)
        ctx.close("indoor + outdoor 3D", i3 + o3, n("distance_3d"), rt, at)
        pos = g.d2 > 0
        ctx.close("3D indoor share", (i3 * g.d2)[pos], (i2 * g.d3)[pos], 1e-9 if pr == "double" else 1e-3, 1e-3)
        ctx.check(np.isfinite(i3).all() and np.isfinite(o3).all(), "3D distances not finite")
        ctx.seen(c["elev"], c["hs"], c["off"], i, c["dir"])

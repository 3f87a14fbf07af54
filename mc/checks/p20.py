"""P20: generated topologies."""
import itertools
LEVEL = "exploration"
RULE = ("scenario x all 256 subsets of given optional arguments (omitted ones compared with the explicit default under the same draws), and scenario x precision x elevation 10..90 x "
        "satellite height x inter-site distance x height limits x speed limits x extreme and spread draws, judged against the geometry; each result set on a channel model of the scenario "
        "and some run; sector and cell drops of terminals; non-trivial: distinct topologies")
ASSUMPTIONS = ["flat earth geometry of the drop: ground distance = height / tan(elevation)", "in single precision the drop centre is exact only for elevations up to 89 degrees and at 90",
               "the channel model is run for terminals at distinct positions only (the correlation matrix of coincident terminals is singular)",
               "indoor terminals are never generated, whatever the probability (documented as not implemented)"]
NAMES = ["bs_height", "elevation_angle", "isd", "min_ut_height", "max_ut_height", "indoor_probability", "min_ut_velocity", "max_ut_velocity"]
DEF = dict(bs_height=600e3, elevation_angle=80., min_ut_height=1.5, max_ut_height=1.5, indoor_probability=0., min_ut_velocity=0., max_ut_velocity=0.)
ISD = dict(dur=200., urb=500., sur=5000.)
GIV = dict(bs_height=1200e3, elevation_angle=33., isd=750., min_ut_height=1., max_ut_height=9., indoor_probability=.5, min_ut_velocity=0., max_ut_velocity=30.)
DRAW = [["const", 0., 0.], ["const", .5, 0.], ["const", 1 - 2 ** -23, 0.], ["const", .25, 0.], ["table", 0], ["table", 1], ["table", 2]]


def cases(tier):
    for s in ISD:
        for i in range(8):
            yield dict(kind="defaults", scn=s, part=i)
    els = [10., 11., 24., 30., 45., 52., 60., 70., 77., 80., 88., 89., 90.] if tier == "quick" else [float(e) for e in range(10, 91)]
    for i, (s, e, p) in enumerate(itertools.product(ISD, els, ("single", "double"))):
        yield dict(kind="geometry", scn=s, elev=e, prec=p, k=i)
    for s, d in itertools.product(ISD, ("uplink", "downlink")):
        yield dict(kind="use", scn=s, dir=d)
    yield dict(kind="cells")
    yield dict(kind="interferers")


def judge(ctx, t, B, U, scn, a, prec, tag):
    """a: the effective parameters"""
    import numpy as np
    from .. import ref
    T = np.float32 if prec == "single" else np.float64
    ctx.check(len(t) == 6, "six items " + tag)
    ul, bl, uo, bo, uv, st = [x.numpy() for x in t]
    for n, x, sh in (("ut_loc", ul, (B, U, 3)), ("bs_loc", bl, (B, 1, 3)), ("ut_orientations", uo, (B, U, 3)), ("bs_orientations", bo, (B, 1, 3)),
                     ("ut_velocities", uv, (B, U, 3)), ("in_state", st, (B, U))):
        ctx.check(x.shape == sh, f"shape of {n} is {x.shape} instead of {sh} {tag}")
        ctx.check(x.dtype == (bool if n == "in_state" else T), f"type of {n} is {x.dtype} {tag}")
        ctx.check(np.isfinite(x.astype(float)).all(), f"{n} is not finite {tag}")
    ul, bl, uo, bo, uv = [x.astype(float) for x in (ul, bl, uo, bo, uv)]
    ctx.close("satellite position " + tag, bl, np.zeros((B, 1, 3)) + [0, 0, a["bs_height"]], 1e-6 if prec == "single" else 1e-13, 1e-9)
    for b in range(B):
        ctx.close("satellite boresight " + tag, ref.rotm(bo[b, 0])[:, 0], [0, 0, -1], 0, 1e-6 if prec == "single" else 1e-9)
    ctx.check(not st.any(), "terminals outdoors " + tag)
    D = a["bs_height"] / np.tan(np.radians(a["elevation_angle"])) if a["elevation_angle"] < 90 else 0.
    tol = (2e-3 * D + .2) if prec == "single" else 1e-9 * D + 1e-6
    x, y = np.abs(ul[..., 0]), np.abs(ul[..., 1])
    hi, h2 = a["isd"] / 2 * (1 + 1e-6), a["isd"] / 2
    near = np.hypot(np.maximum(x - hi, 0), np.maximum(y - hi, 0))
    far = np.hypot(x + hi, y + hi)
    ctx.check(((near <= D + tol) & (far >= D - tol)).all(), lambda: f"terminals {ul[..., :2].reshape(-1, 2)[:3].tolist()} further than {h2} per axis from the circle of radius {D} {tag}")
    z = ul[..., 2]
    ctx.check((z >= a["min_ut_height"] - 1e-6).all() and (z <= a["max_ut_height"] + 1e-6).all(), lambda: f"heights {z.ravel()[:4]} outside [{a['min_ut_height']}, {a['max_ut_height']}] {tag}")
    v = np.linalg.norm(uv, axis=-1)
    ctx.check((v >= a["min_ut_velocity"] - 1e-4).all() and (v <= a["max_ut_velocity"] + 1e-4).all(), lambda: f"speeds {v.ravel()[:4]} outside [{a['min_ut_velocity']}, {a['max_ut_velocity']}] {tag}")
    ctx.close("vertical velocity " + tag, uv[..., 2], 0 * v, 0, 0)
    e = np.radians(a["elevation_angle"])
    for i in np.ndindex(B, U):
        r = np.hypot(*ul[i][:2])
        if r < 1e-6:
            continue
        w = np.array([-ul[i][0] / r * np.cos(e), -ul[i][1] / r * np.cos(e), np.sin(e)])
        ctx.close("boresight of a terminal " + tag, ref.rotm(uo[i])[:, 0], w, 0, 2e-5 if prec == "single" else 1e-9)
    return ul, bl, uo, bo, uv, st


def run_case(ctx, c):
    import numpy as np
    from .. import build as b, ref
    from ..env import ntn, ntnu, tf, RNG
    gen = ntnu.gen_single_sector_topology
    if c["kind"] == "defaults":
        full = dict(DEF, isd=ISD[c["scn"]])
        for m in range(c["part"] * 32, c["part"] * 32 + 32):
            giv = {n: GIV[n] for i, n in enumerate(NAMES) if m >> i & 1}
            prec = ("single", "double")[m % 2]
            eff = dict(full, **giv)
            tag = f"{c['scn']} given {sorted(giv)} {prec}"
            for d in (["table", 0], ["const", .9, 0.]):
                RNG.set(d)
                t = gen(2, 3, c["scn"], **giv, precision=prec)
                RNG.set(d)
                w = gen(2, 3, c["scn"], **eff, precision=prec)
                ctx.run(2)
                judge(ctx, t, 2, 3, c["scn"], eff, prec, tag)
                for n, x, y in zip(("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "in_state"), t, w):
                    ctx.close(f"{n} with defaults {tag}", x.numpy(), y.numpy(), 1e-5 if prec == "single" else 1e-9, 1e-4 if prec == "single" else 1e-6)
                ctx.seen(t[0].numpy(), t[4].numpy())
    elif c["kind"] == "geometry":
        prec = c["prec"]
        for i, (h, isd, hh, vv) in enumerate(itertools.product((600e3, 550e3, 2000e3, 35786e3), (100., 5000., 40e3), ((1.5, 1.5), (1., 22.5), (0., .5)), ((0., 0.), (3., 3.), (10., 500.)))):
            if (i + c["k"]) % 4:
                continue
            a = dict(bs_height=h, elevation_angle=c["elev"], isd=isd, min_ut_height=hh[0], max_ut_height=hh[1], indoor_probability=0., min_ut_velocity=vv[0], max_ut_velocity=vv[1])
            tag = f"{c['scn']} {a} {prec}"
            for j in (range(7) if (i // 4) % 4 == 0 else ((i // 4) % 4, 4 + (i // 4) % 3)):
                RNG.set(DRAW[j], percall=j >= 4)
                B, U = [(1, 1), (2, 3), (3, 2), (1, 4), (2, 40), (1, 60), (3, 50)][j]
                arg = a if (i + j) % 2 else {k: tf.constant(v, b.RD[prec]) for k, v in a.items()}
                if not isinstance(arg["bs_height"], float):
                    arg = dict(arg, elevation_angle=a["elevation_angle"])
                ul, bl, uo, bo, uv, st = judge(ctx, gen(B, U, c["scn"], **arg, precision=prec), B, U, c["scn"], a, prec, tag + f" draws {DRAW[j]}")
                ctx.run()
                ctx.seen(ul, uv)
                if U >= 40:                 # spread draws: the limits are used
                    for ax in (0, 1):
                        ctx.check(np.ptp(ul[0, :, ax]) > .7 * isd, f"terminals spread over {np.ptp(ul[0, :, ax])} m only {tag}")
                    ctx.check(np.ptp(ul[..., 2]) >= .7 * (hh[1] - hh[0]) - 1e-5, "heights do not use their range " + tag)
                    sp = np.linalg.norm(uv, axis=-1)
                    ctx.check(np.ptp(sp) >= .7 * (vv[1] - vv[0]) - 1e-4, "speeds do not use their range " + tag)
                    if vv[1] > 0:
                        an = np.sort(np.arctan2(uv[..., 1], uv[..., 0]).ravel())
                        ctx.check(np.diff(np.append(an, an[0] + 2 * np.pi)).max() < np.pi / 2, "directions of motion do not cover the circle " + tag)
        # the default precision is the configured one (single)
        RNG.set(["table", 0])
        t = gen(1, 2, c["scn"])
        ctx.check(t[0].dtype == tf.float32, f"default precision gives {t[0].dtype}")
    elif c["kind"] == "use":
        for prec, (j, d), e in itertools.product(("single", "double"), enumerate(DRAW), (80., 90., 12.)):
            RNG.set(d, percall=j >= 4)
            U = 3 if j >= 4 else 1          # constant draws would put all terminals of a batch example at one point
            t = gen(2, U, c["scn"], elevation_angle=e, min_ut_velocity=1., max_ut_velocity=9., precision=prec)
            s = b.scenario(c["scn"], 2e9, c["dir"], e, precision=prec)
            s.set_topology(*t)
            ctx.run()
            g = ref.Geo(e, t[0].numpy(), t[1].numpy())
            ctx.close("distance to the satellite", s.distance_3d.numpy(), g.d3, *((1e-5, 1.) if prec == "single" else (1e-11, 1e-6)))
            ctx.close("ground distance to the satellite", s.distance_2d.numpy(), g.d2, *((1e-5, 1e-2) if prec == "single" else (1e-11, 1e-6)))
            ctx.seen(t[0].numpy(), [c["dir"], prec])
            if j in (1, 4):
                RNG.set(["table", 3])
                ch = b.channel(c["scn"], 2e9, c["dir"], e, precision=prec)
                ch.set_topology(*t)
                a, tau = ch(2, 1e6)
                ctx.run()
                ctx.check(np.isfinite(a.numpy()).all() and np.isfinite(tau.numpy()).all() and np.abs(a.numpy()).max() > 0, f"channel of a generated topology is not finite {c} {prec} {d} elev={e}")
    elif c["kind"] == "cells":
        # drops in a whole cell: sectors 0, 1, 2 are rotations by 120 degrees about the cell centre, then the shift
        for prec, u, loc, e in itertools.product(("single", "double"), (0., .34, .67, .999, "t"), ([0., 0.], [1000., -400.]), (40., 70.)):
            for area in ("sector", "cell"):
                d = ["table", 1] if u == "t" else ["const", u, 0.]
                RNG.set(d)
                xy = ntnu.drop_uts_in_sector(2, 5, 600e3, e, 800., precision=prec).numpy().astype(float)
                RNG.set(d)
                ul = ntnu.generate_uts_topology(2, 5, area, tf.constant(loc, b.RD[prec]), tf.constant(600e3, b.RD[prec]), e, 800., 1., 2., 0., 0., 5., precision=prec)[0].numpy().astype(float)
                ctx.run(2)
                s = np.floor(3 * RNG.u((2, 5))) if area == "cell" else np.zeros((2, 5))
                al = s * 2 * np.pi / 3
                w = np.stack([np.cos(al) * xy[..., 0] - np.sin(al) * xy[..., 1], np.sin(al) * xy[..., 0] + np.cos(al) * xy[..., 1]], -1) + loc
                ctx.close(f"terminals dropped in a {area} {loc} u={u} {prec}", ul[..., :2], w, 2e-6 if prec == "single" else 1e-9, .2 if prec == "single" else 1e-6)
                ctx.seen(ul)
        from .p18 import rejected
        for bad in ("Sector", "site", None):
            rejected(ctx, f"drop area {bad!r}", lambda: ntnu.generate_uts_topology(2, 5, bad, tf.constant([0., 0.]), 600e3, 40., 800., 1., 2., 0., 0., 5.))
        for bad in ("rma", "URB", "umi", "", None, "urban"):
            rejected(ctx, f"scenario {bad!r}", lambda: gen(1, 1, bad))
    else:
        for scn in ISD:
            RNG.set(["table", 0])
            ctx.run()
            try:
                t = ntnu.gen_single_sector_topology_interferers(2, 3, 2, scn)
            except Exception as ex:
                ctx.fail(f"gen_single_sector_topology_interferers({scn!r}) fails: {type(ex).__name__} {str(ex)[:100]}", "interferers", stop=False)
                continue
            ctx.check([tuple(x.shape) for x in t] == [(2, 5, 3), (2, 1, 3), (2, 5, 3), (2, 1, 3), (2, 5, 3), (2, 5)], "shapes of a topology with interferers")
            ctx.check(all(np.isfinite(x.numpy().astype(float)).all() for x in t), "topology with interferers is not finite")

"""P07: atmospheric losses: grid against the ITU formulas; breadth-first over parameter updates."""
import itertools
LEVEL = "model_checking"
RULE = ("grid: carrier x elevation x each atmospheric parameter over its alphabet; histories: all sequences of updates (one parameter value, "
        "location update, orientation update) up to the depth bound; a state is the full parameter assignment plus location index")
ASSUMPTIONS = ["formulas: ITU-R P.676 annex 2 (below 54 GHz), P.618 / TR 38.811 6.6.6 scintillation"]
DEF = dict(latitude=47, lwc=0.41, rain_rate=40, atmospheric_pressure=1020, temperature=273, water_vapor_density=7.5, relative_humidity=50,
           diameter_earth_antenna=3.6, antenna_efficiency=0.5)
AL = dict(atmospheric_pressure=[900., 1050., 1013.], temperature=[250., 288., 310.], water_vapor_density=[0.5, 20., 0.], relative_humidity=[0., 95., 60.],
          diameter_earth_antenna=[0.3, 1.2, 10.], antenna_efficiency=[0.3, 0.9, 1.0], latitude=[0., 70., 30.], lwc=[0., 1.0, .7], rain_rate=[0., 100., 3.])
EVQ = [(k, v) for k in AL for v in AL[k][:2]] + [("loc", 1), ("ori", 1), ("none", 0)]
EVT = [(k, v) for k in AL for v in AL[k]] + [("loc", 1), ("ori", 1), ("none", 0), ("pair", 0)]
FC = [1.9e9, 2e9, 4e9, 19e9, 22.2e9, 28e9, 40e9]


def cases(tier):
    els = [10., 15., 20., 30., 45., 60., 75., 90.] if tier == "quick" else [10. + 2.5 * i for i in range(33)]
    for f, s in itertools.product(FC, ("urb", "dur", "sur") if tier != "quick" else ("urb",)):
        yield dict(kind="grid", fc=f, els=els, scn=s)
    for s in ("dur", "sur"):
        yield dict(kind="grid", fc=21e9, els=els, scn=s)
    ev = EVQ if tier == "quick" else EVT
    for f in (20e9, 2e9):
        for h in itertools.product(range(len(ev)), repeat=1):
            yield dict(kind="hist", fc=f, first=list(h), depth=2 if tier == "quick" else 3)


def want(ref, fc, e, p):
    return (ref.gas(fc, e, p["temperature"], p["atmospheric_pressure"], p["water_vapor_density"]),
            ref.scint(fc, e, p["temperature"], p["relative_humidity"], p["diameter_earth_antenna"], p["antenna_efficiency"]))


def run_case(ctx, c):
    import numpy as np
    from .. import build as b, ref
    t = b.topo(2, 2, 2)
    b.RNG.set(["table", 0])

    def judge(sc, e, p, tag):
        g, s = want(ref, c["fc"], e, p)
        for n, v, w in (("gas_pathloss", sc.gas_pathloss.numpy(), g), ("scintillation_pathloss", sc.scintillation_pathloss.numpy(), s)):
            ctx.check(np.isfinite(v).all() and (v >= 0).all(), f"{n} {tag}: {v.ravel()[:3]}")
            ctx.close(f"{n} {tag}", np.broadcast_to(v, (2, 2, 2)), np.full((2, 2, 2), w), 1e-9, 1e-11)
        for k in DEF:
            ctx.close(f"{k} {tag}", float(getattr(sc, k)), p[k], 1e-9)
        return g, s
    if c["kind"] == "grid":
        combos = [dict()] + [{k: v} for k in AL for v in AL[k]]
        for p in combos:
            if p and ctx.tier == "quick" and next(iter(p)) in ("latitude", "lwc", "rain_rate"):
                continue
            last = None
            for e in c["els"]:
                pp = dict(DEF, **p)
                sc = b.scenario(c["scn"], c["fc"], "downlink" if e > 40 else "uplink", e, enable_shadow_fading=False)
                sc.set_topology(**b.tt(t), **p)
                ctx.run(); ctx.trans += 1; ctx.traces += 1
                ctx.state(c["fc"], e, pp)
                judge(sc, e, pp, f"{c['fc']/1e9}GHz {e}deg {p}")
                cur = (float(sc.gas_pathloss.numpy().ravel()[0]), float(sc.scintillation_pathloss.numpy().ravel()[0]))
                if last:
                    ctx.check(cur[0] < last[0] and cur[1] <= last[1], f"loss does not fall with elevation: {last} -> {cur} at {e}deg {c['fc']/1e9}GHz {p}")
                last = cur
                ctx.seen(c["fc"], e, p)
        return
    ev = EVQ if ctx.tier == "quick" else EVT
    e = 30.
    for rest in itertools.product(range(len(ev)), repeat=c["depth"] - 1):
        hist = c["first"] + list(rest)
        sc = b.scenario("urb", c["fc"], "uplink", e)
        b.RNG.set(["table", 0])
        sc.set_topology(**b.tt(t))
        p = dict(DEF); loc = 0
        for k in hist:
            n, v = ev[k]
            before = {a: getattr(sc, a).numpy() for a in ("basic_pathloss", "distance_3d", "los", "lsp_log_mean", "ut_loc")}
            if n == "loc":
                loc += 1
                sc.set_topology(ut_loc=b.tt(t)["ut_loc"] + 10.0 * loc)
            elif n == "ori":
                sc.set_topology(ut_orientations=b.tt(t)["ut_orientations"] + 0.1)
            elif n == "none":
                sc.set_topology()
            elif n == "pair":
                p.update(temperature=280., relative_humidity=33.)
                sc.set_topology(temperature=280., relative_humidity=33.)
            else:
                p[n] = v
                sc.set_topology(**{n: v})
            ctx.run(); ctx.trans += 1
            ctx.state(c["fc"], p, loc)
            tag = f"{c['fc']/1e9}GHz after {[ev[x] for x in hist]}"
            ctx.seen(c["fc"], *[round(x, 9) for x in judge(sc, e, p, tag)])
            if n != "loc":
                for a, x in before.items():
                    ctx.close(f"{a} changed by {n} update", getattr(sc, a).numpy(), x, 0, 0)
        ctx.traces += 1

"""P03: topology updates are history independent: every sequence of updates against a fresh object."""
import itertools
REUSE = False
LEVEL = "model_checking"
RULE = ("all sequences of topology updates up to the depth bound (each argument alone, pairs, full updates with other batch size and terminal "
        "count, empty and rejected updates), a second live object being updated in between; after each step every public quantity is compared "
        "with a fresh object given the latest arguments at once; a state is the vector of argument versions")
ASSUMPTIONS = ["a fresh object's single update is the reference (its values are judged by P01, P02, P05-P07)"]
ARGS = ("ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "in_state")
ATM = ("temperature", "relative_humidity", "atmospheric_pressure")
# event: {argument: version}; "full": all six arguments of shape class s
EV = [dict(full=0), dict(full=1), dict(ut_loc=1), dict(bs_loc=1), dict(ut_orientations=1), dict(bs_orientations=1), dict(ut_velocities=1),
      dict(in_state=1), dict(los=True), dict(los=False), dict(), dict(ut_loc=0, in_state=0), dict(ut_loc=2, ut_orientations=2),
      dict(temperature=290.), dict(relative_humidity=80., ut_velocities=2), dict(doppler_enabled=False), dict(bs_loc=2, los=True),
      dict(full=0, los=False), dict(in_state=2, atmospheric_pressure=990.), dict(bs_loc=3), dict(in_state=0), dict(doppler_enabled=True)]
REJ = [dict(ut_loc=1), dict(los=True, ut_loc=1, bs_loc=1), dict(in_state=1, los=False), dict(temperature=250., bs_loc=1), dict(doppler_enabled=False, ut_orientations=1),
       dict(ut_loc=2, bs_loc=2, ut_orientations=1, bs_orientations=1, ut_velocities=1)]
CHAN = [i for i, e in enumerate(EV) if not set(e) & set(ATM + ("doppler_enabled",))]
OBS = ("ut_loc bs_loc ut_orientations bs_orientations ut_velocities indoor los distance_2d distance_2d_in distance_2d_out distance_3d distance_3d_in "
       "distance_3d_out matrix_ut_distance_2d los_aod los_aoa los_zod los_zoa los_probability lsp_log_mean lsp_log_std zod_offset basic_pathloss "
       "gas_pathloss scintillation_pathloss entry_pathloss free_space_pathloss h_ut h_bs batch_size num_ut num_bs doppler_enabled temperature "
       "relative_humidity atmospheric_pressure").split()
CFG = [("urb", 2e9, "uplink", 30.), ("dur", 20e9, "downlink", 60.), ("sur", 30e9, "uplink", 80.)]


def cases(tier):
    full = [0, 1, 17]
    for ci, cfg in enumerate(CFG):
        for f, a in itertools.product(full, range(len(EV))):
            if tier == "quick" and f == 17 and ci:
                continue
            yield dict(kind="sc", cfg=cfg, start=[f, a], depth=(0 if ci or f else 1) if tier == "quick" else 2)
        for r in range(len(REJ)):
            if tier == "quick" and r % 3 != ci:
                continue
            yield dict(kind="rej", cfg=cfg, rej=r)
        for f, a in itertools.product(full[:2], CHAN):
            if tier == "quick" and ci and (f or a % 2 == ci % 2):
                continue
            yield dict(kind="ch", cfg=cfg, start=[f, a], depth=0 if tier == "quick" else 1)
    if tier != "quick":
        for a in itertools.product(range(len(EV)), repeat=2):
            yield dict(kind="sc", cfg=CFG[0], start=[0, *a], depth=2)


def values(b, np, k, v, s):
    """version v of argument k for shape class s"""
    B, N, U = ((2, 2, 3), (1, 2, 4))[s]
    t = b.topo(B, N, U)
    if k == "in_state":
        i = np.arange(B * U).reshape(B, U)
        return b.tf.constant([i < 0, i % 3 == 1, i % 2 == 0][v])
    x = t[k]
    if k == "bs_loc":
        x = x * [1, [1, 1, 1.5], [1, 1, .4], [1, 1, .001]][v] + [0, [10., -20., 0], [3e3, 0, 0], 0][v]
    elif k == "ut_loc":
        x = x * [1, [1.3, .8, 1], [.6, 1.2, 1]][v] + [0, [700., -30., 0.5], [-2000., 4000., 3.0]][v]   # distances between terminals change as well
    else:
        x = x + v * (1.0 if k == "ut_velocities" else 0.37)
    return b.tf.constant(x)


def apply(st, ev):
    """abstract state: (shape, versions of ARGS, los, atm..., doppler)"""
    st = dict(st)
    if "full" in ev:
        st["s"] = ev["full"]
        st.update({k: 0 for k in ARGS})
    st.update({k: v for k, v in ev.items() if k != "full"})
    return st


def kwargs(b, np, ev, st):
    kw = {}
    for k in ARGS:
        if k in ev or "full" in ev:
            kw[k] = values(b, np, k, st[k], st["s"])
    for k in ATM + ("los", "doppler_enabled"):
        if k in ev:
            kw[k] = ev[k]
    return kw


def observe(sc):
    o = {}
    for n in OBS:
        v = getattr(sc, n)
        o[n] = v.numpy() if hasattr(v, "numpy") else v
    for p in ("rTau", "muXPR", "cASA", "cDS", "zeta"):
        o["get_param " + p] = sc.get_param(p).numpy()
    o["num_clusters_max"] = int(sc.num_clusters_max)
    return o


def run_case(ctx, c):
    import numpy as np
    from .. import build as b
    cache = ctx.__dict__.setdefault("p03", {})
    key0 = tuple(c["cfg"])

    def fresh(st, chan):
        k = (key0, chan, tuple(sorted(st.items())))
        if k not in cache:
            o = (b.channel if chan else b.scenario)(*c["cfg"])
            b.RNG.set(["table", 1])
            o.set_topology(**kwargs(b, np, st, st))
            if chan:
                b.RNG.set(["table", 2])
                h, tau = o(2, 1e4)
                cache[k] = dict(h=h.numpy(), delays=tau.numpy())
            else:
                cache[k] = observe(o)
            ctx.run()
        return cache[k]

    def judge(o, st, chan, hist):
        want = fresh(st, chan)
        if chan:
            b.RNG.set(["table", 2])
            h, tau = o(2, 1e4)
            got = dict(h=h.numpy(), delays=tau.numpy())
        else:
            got = observe(o)
        for n in want:
            w, g = np.asarray(want[n]), np.asarray(got[n])
            if chan:                              # indoor terminals have no clusters (documented as unsupported): NaN on both sides
                ctx.check((np.isnan(w) == np.isnan(g)).all(), f"{n} after {hist}: NaN pattern differs from a fresh object's")
                w, g = np.nan_to_num(w), np.nan_to_num(g)
            sc = np.max(np.abs(w)) if chan else 1.0
            ctx.close(f"{n} after {hist} on {c['cfg']} vs fresh object", g, w, 1e-9, 1e-12 * (sc if chan else 1), "hist")
        if not chan:
            for k in ARGS:
                ctx.close(f"{k} is not the latest value after {hist}", got["indoor" if k == "in_state" else k], values(b, np, k, st[k], st["s"]).numpy(), 1e-12, 0)
            for k in ATM + ("doppler_enabled",):
                if k in st:
                    ctx.close(f"{k} is not the latest value after {hist}", float(got[k]), float(st[k]), 1e-6, 0)
        ctx.state(chan, *key0, sorted((k, str(v)) for k, v in st.items()))
        ctx.seen(chan, np.round(np.nan_to_num(got["h"]) / np.nanmax(np.abs(got["h"])), 5) if chan else [np.round(np.asarray(got[x], float), 4).tolist() for x in ("los", "los_aod", "distance_3d", "gas_pathloss", "ut_velocities")])
    if c["kind"] == "rej":
        for chan in (False, True):
            r = REJ[c["rej"]]
            if chan and set(r) & set(ATM + ("doppler_enabled",)):
                continue
            for f in (0, 1):
                for extra in ({}, dict(los=True), dict(in_state=1)):
                    o = (b.channel if chan else b.scenario)(*c["cfg"])
                    st0 = dict({k: 0 for k in ARGS}, s=f)
                    b.RNG.set(["table", 1])
                    try:
                        o.set_topology(**kwargs(b, np, r, apply(st0, r)))
                        ctx.fail(f"update {sorted(r)} accepted although required arguments were never given")
                    except (AssertionError, ValueError, TypeError):
                        pass
                    ev = dict(full=f, **extra)
                    st = apply(dict(s=f), ev)
                    o.set_topology(**kwargs(b, np, ev, st))
                    ctx.trans += 2; ctx.run()
                    judge(o, st, chan, f"rejected {r}, then {ev}")
                    ctx.traces += 1
        return
    chan = c["kind"] == "ch"
    al = CHAN if chan else range(len(EV))
    for rest in itertools.product(al, repeat=c["depth"]):
        hist = list(c["start"]) + list(rest)
        o = (b.channel if chan else b.scenario)(*c["cfg"])
        other = b.scenario("dur" if c["cfg"][0] != "dur" else "urb", 2.5e9, "downlink", 20.)
        st, st2 = {}, {}
        ow = None
        for i, e in enumerate(hist):
            ev = EV[e]
            st = apply(st, ev)
            b.RNG.set(["table", 1])
            o.set_topology(**kwargs(b, np, ev, st))
            ctx.trans += 1; ctx.run()
            if i == 0:
                other.set_topology(**kwargs(b, np, dict(full=1), apply({}, dict(full=1))))
                ow = observe(other)
            if i:
                judge(o, st, chan, [EV[x] for x in hist[:i + 1]])
        for n, v in observe(other).items():
            ctx.close(f"{n} of another scenario object changed", v, ow[n], 0, 0)
        ctx.traces += 1

"""P06: composition of the path loss, and its single application in the channel gain."""
import itertools
LEVEL = "exploration"
RULE = ("scenario x carrier x direction x elevation x LoS pattern x random-draw policy, with shadow fading on and off and different satellite "
        "heights per batch example and satellite; non-trivial: distinct path-loss tensors")
ASSUMPTIONS = ["golden tables; reference formulas for gas and scintillation are judged by P07, here only their sum"]
POL = [["const", .5, 0.], ["const", .5, 1.], ["const", .5, -2.5], ["table", 0], ["table", 3]]


S, KA = [2e9, 3.9e9, 1.9e9, 4e9], [19e9, 39e9, 27.5e9, 40e9]
# satellite heights: low earth orbits; geostationary next to low; platforms below satellites
HEIGHTS = [None, [[35786e3, 600e3], [600e3, 8000e3]], [[20e3, 1500e3], [300e3, 8e3]]]


def cases(tier):
    els = (10., 20., 30., 40., 50., 57., 70., 80., 90.) if tier == "quick" else [10., 17., 20., 30., 33., 40., 50., 57., 60., 70., 80., 88., 90.]
    for j, (s, (fs, d), (i, e)) in enumerate(itertools.product(("urb", "dur", "sur"), ((S, "uplink"), (S, "downlink"), (KA, "uplink"), (KA, "downlink")), enumerate(els))):
        for f in (fs if tier != "quick" else fs[j % 4:][:1]):
            yield dict(scn=s, fc=f, dir=d, elev=e, full=tier != "quick" or i % 4 == 0, h=j % 3)
        if j % 9 == 4:
            yield dict(scn=s, fc=fs[0], dir=d, elev=e, full=j % 2 == 0, h=0, shp=[5, 4, 11])


def run_case(ctx, c):
    import numpy as np
    from .. import build as b, ref
    from ..rng import policy, Func
    tab = ref.Tab(c["scn"], c["fc"], c["dir"], c["elev"])
    shp = tuple(c.get("shp", (2, 2, 2)))
    t = b.topo(*shp, heights=HEIGHTS[c["h"]])
    g = b.geo(c["elev"], t)
    m = np.array([[[1, 0], [0, 1]], [[0, 0], [1, 1]]], bool) if shp == (2, 2, 2) else np.arange(np.prod(shp)).reshape(shp) % 7 % 2 == 0
    atm = ref.gas(c["fc"], c["elev"]) + ref.scint(c["fc"], c["elev"])
    for sf, pol, lp in itertools.product((False, True), POL, (m, ~m)):
        base = policy(pol)
        P = b.losdraw(lp, base)
        sc = b.scenario(c["scn"], c["fc"], c["dir"], c["elev"], enable_shadow_fading=sf)
        b.RNG.set(P)
        sc.set_topology(**b.tt(t))
        los = sc.los.numpy()
        ctx.run()
        fs = ref.fspl(c["fc"], g.d3)
        want = fs + np.where(los, 0, tab.one("CL", False))
        z = np.asarray(base.table("z")[np.arange(np.prod(shp))]).reshape(shp)
        if sf:
            want = want + tab.link("sigmaSF", los) * z
        tag = f"{c['scn']} {c['fc']/1e9}GHz {c['elev']}deg shadow={sf} draws={pol}"
        ctx.close("free_space_pathloss " + tag, sc.free_space_pathloss.numpy(), fs, 1e-11, 1e-9)
        ctx.close("basic_pathloss " + tag, sc.basic_pathloss.numpy(), want, 1e-11, 1e-9)
        ctx.close("entry_pathloss " + tag, np.broadcast_to(sc.entry_pathloss.numpy(), los.shape), np.zeros(los.shape))
        gen = b.ntn.LSPGenerator(sc)
        ctx.close("sampled path loss " + tag, np.broadcast_to(gen.sample_pathloss().numpy(), los.shape), want + atm, 1e-9, 1e-8)
        ctx.seen(np.round(want, 6))
    if not c["full"]:
        return
    # channel gain: power with path loss and/or shadow fading relative to neither
    for pol, lp in ((["table", 0], m), (["table", 5], ~m), (["const", .4, .8], m)):
        base = policy(pol)
        out = {}
        for pl, sf in itertools.product((False, True), repeat=2):
            ch = b.channel(c["scn"], c["fc"], c["dir"], c["elev"], enable_pathloss=pl, enable_shadow_fading=sf)
            b.RNG.set(b.losdraw(lp, base))
            rec = {}
            cls = b.ntn.RaysGenerator
            orig = cls.__call__

            def spy(self, *a, **k):
                rec["lsp"] = a[0] if a else next(iter(k.values()))
                return orig(self, *a, **k)
            cls.__call__ = spy
            try:
                ch.set_topology(**b.tt(t))
                h, _ = ch(2, 1e4)
            finally:
                cls.__call__ = orig
            ctx.run()
            h = h.numpy()
            if c["dir"] == "uplink":     # [B, bs, ant, ut, ant, path, T]
                h = np.moveaxis(h, (1, 3), (1, 2))
            else:                        # [B, ut, ant, bs, ant, path, T]
                h = np.moveaxis(h, (3, 1), (1, 2))
            out[pl, sf] = (np.abs(h) ** 2).sum(axis=tuple(range(3, h.ndim)))
        los = ch._scenario.los.numpy() if hasattr(ch, "_scenario") else lp
        z = np.asarray(base.table("z")[np.arange(np.prod(shp))]).reshape(shp)
        sflsp = 10 * np.log10(rec["lsp"].sf.numpy())
        sfb = tab.link("sigmaSF", los) * z
        want0 = ref.fspl(c["fc"], g.d3) + np.where(los, 0, tab.one("CL", False)) + atm
        tag = f"{c['scn']} {c['fc']/1e9}GHz {c['dir']} {c['elev']}deg draws={pol}"
        dB = lambda k: -10 * np.log10(out[k] / out[False, False])
        ctx.close("gain, path loss only " + tag, dB((True, False)), want0, 1e-9, 1e-7)
        ctx.close("gain, shadow fading only " + tag, dB((False, True)), -sflsp, 1e-9, 1e-7)
        both = dB((True, True)) - want0
        if np.allclose(both, -sflsp, atol=1e-3) or np.allclose(both, sfb, atol=1e-3):
            continue
        if np.allclose(both, sfb - sflsp, atol=1e-3):
            ctx.fail("with path loss and shadow fading enabled, shadow fading enters the gain twice " + tag, "sf-twice", stop=False)
        else:
            ctx.fail(f"gain with path loss and shadow fading {tag}: excess {both.tolist()} dB, shadow fading terms {sfb.tolist()} / {(-sflsp).tolist()}")

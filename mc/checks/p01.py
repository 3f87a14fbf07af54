"""P01: every parameter equals the golden table entry of scenario, band, direction, angle and LoS state of the link."""
import itertools
LEVEL = "exploration"
RULE = ("every scenario x carrier frequency x direction x elevation angle is one scenario object; per object every LoS pattern of a "
        "2x2x2 link grid from a covering list is set and every parameter of both tables is compared with the golden copy; a case is "
        "non-trivial when its (table pair, angle key, LoS pattern) was not seen before")
ASSUMPTIONS = ["the golden tables (mc/gold/tables.json) are the intended 3GPP values", "ties of the rounding (15, 25, ... degrees) are not judged"]
E_Q = [10., 12.3, 14.9, 15.1, 20., 24.9, 25.1, 30., 34.9, 35.1, 40., 44.9, 45.1, 50., 54.9, 55.1, 60., 64.9, 65.1, 70., 74.9, 75.1, 80., 84.9, 85.1, 90.]
E_T = [x for x in [10 + 0.5 * i for i in range(161)] if (x / 10) % 1 != 0.5] + [x + s for x in range(15, 90, 10) for s in (-.01, .01)]


def cases(tier):
    fcs = [1.9e9, 4e9, 19e9, 40e9] if tier == "quick" else [1.9e9, 2e9, 2.6e9, 3.5e9, 4e9, 19e9, 20e9, 28e9, 30e9, 40e9]
    for s, f, d in itertools.product(("urb", "dur", "sur"), fcs, ("uplink", "downlink")):
        es = E_Q if tier == "quick" else E_T
        for i in range(0, len(es), 7):
            yield dict(scn=s, fc=f, dir=d, elevs=es[i:i + 7], prec="single" if tier != "quick" and i % 2 else "double")


def run_case(ctx, c):
    import numpy as np
    from .. import build as b, ref
    m = np.array([1, 0, 0, 1, 0, 1, 1, 0], bool)
    pats = [np.zeros(8, bool), m, ~m] + ([] if ctx.tier == "quick" else [np.ones(8, bool)])
    ut, bs = b.array(c["fc"], precision=c["prec"]), b.array(c["fc"], precision=c["prec"])
    for e in c["elevs"]:
        sc = b.scenario(c["scn"], c["fc"], c["dir"], e, ut, bs, precision=c["prec"], enable_shadow_fading=False)
        tab = ref.Tab(c["scn"], c["fc"], c["dir"], e)
        t = b.topo(2, 2, 2)
        g = b.geo(e, t)
        rt = 1e-9 if c["prec"] == "double" else 3e-6
        tag = f"{c['scn']} {c['fc']/1e9}GHz {c['dir']} {e}deg"
        for p in pats:
            b.RNG.set(b.losdraw(p.reshape(2, 2, 2)))
            sc.set_topology(**b.tt(t, c["prec"]))
            los = sc.los.numpy()
            ctx.run(); ctx.seen([c["scn"], c["fc"] <= 4e9, c["dir"], tab.a, los.ravel().astype(int).tolist()])
            names = sorted({k.rsplit("_", 1)[0] for k in tab.l if k in tab.n and k.endswith(f"_{tab.a}")} | {"CPhiNLoS", "CThetaNLoS"})
            for n in names:
                ctx.close(f"get_param({n}) {tag}", sc.get_param(n).numpy(), tab.link(n, los), rt, 1e-7 if c["prec"] == "single" else 1e-12)
            ctx.close("lsp_log_mean " + tag, sc.lsp_log_mean.numpy(), ref.mu(tab, los), rt, 1e-10)
            ctx.close("lsp_log_std " + tag, sc.lsp_log_std.numpy(), ref.sigma(tab, los), rt, 1e-10)
            ctx.close("los_probability " + tag, np.broadcast_to(sc.los_probability.numpy(), los.shape), np.full(los.shape, tab.one("LoS_p", False)), rt)
            ctx.close("clutter loss " + tag, sc.basic_pathloss.numpy() - ref.fspl(c["fc"], g.d3),
                      np.where(los, 0, tab.one("CL", False)), 0, 1e-6 if c["prec"] == "double" else 1e-3)
            ctx.close("num_clusters_los " + tag, int(sc.num_clusters_los), int(tab.one("numClusters", True)), 0, 0)
            ctx.close("num_clusters_nlos " + tag, int(sc.num_clusters_nlos), int(tab.one("numClusters", False)), 0, 0)
            ctx.close("num_clusters_max " + tag, int(sc.num_clusters_max), tab.C(), 0, 0)
            ctx.close("rays_per_cluster", int(sc.rays_per_cluster), 20, 0, 0)
            ctx.close("zod_offset " + tag, sc.zod_offset.numpy(), np.where(los, 0, g.zoff_nlos), 1e-4 if c["prec"] == "single" else 1e-6, 1e-6 if c["prec"] == "single" else 1e-9)

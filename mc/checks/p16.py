"""P16: channel models equal the composition of their stages; shapes, gain switches and call forms."""
import itertools
LEVEL = "exploration"
RULE = ("scenario class x band x direction x elevation x LoS pattern x array pair x gain switches x random draws; every link and antenna pair is "
        "compared with the reference coefficient sum on the stages' rays; non-trivial: distinct channel tensors")
ASSUMPTIONS = ["LSPs and rays of the public generators under the same draws (their correctness: P08-P11)", "initial phases -pi + 2 pi u over the rays"]
ARR = [(dict(), dict(pol="dual", typ="cross", rows=1, cols=2)), (dict(pol="dual", typ="VH"), dict(rows=3, cols=1, pat="38.901")),
       (dict(rows=2, cols=1, typ="H"), dict(pol="dual", typ="VH", rows=2, cols=1))]


def cases(tier):
    n = 0
    els = (10., 40., 60., 90.) if tier == "quick" else [10. * i for i in range(1, 10)] + [33., 88.]
    for s, (f, d), e in itertools.product(("urb", "dur", "sur"), ((2e9, "uplink"), (3e9, "downlink"), (20e9, "uplink"), (30e9, "downlink"), (2.2e9, "downlink"), (40e9, "uplink")), els):
        n += 1
        yield dict(scn=s, fc=f, dir=d, elev=e, k=n, shp=[(2, 2, 3), (1, 1, 2), (2, 3, 1), (3, 1, 1), (2, 2, 2)][(n + n // 5) % 5] if n % 24 != 7 else (5, 4, 2) if n % 48 == 7 else (2, 3, 9), T=(3, 1, 16)[n % 3], n=1 if tier == "quick" else 3)


def run_case(ctx, c):
    import numpy as np
    from .. import build as b, ref, raycommon as rc
    B, N, U = c["shp"]
    up = c["dir"] == "uplink"
    ua, ba = ARR[c["k"] % 3]
    fs = 1e5
    T = c["T"]
    t = b.topo(B, N, U)
    if c["k"] % 4 == 1:
        t["bs_loc"][0, 0, 2] = 3e5             # a platform below the satellite threshold in the same batch
    elif c["k"] % 4 == 2:
        t["bs_loc"][-1, -1, 2] = 35786e3       # geostationary
    elif c["k"] % 8 == 3:
        t["bs_loc"][:, :, 2] = 20e3            # platforms only
    cfg = (c["scn"], c["fc"], c["dir"], c["elev"])
    for q in range(c["n"]):
        pol = ["table", c["k"] + 5 * q]
        out = {}
        dop = (c["k"] + q) % 3 != 0
        for pl, sf in itertools.product((False, True), repeat=2):
            ch = b.channel(*cfg, ut=b.array(c["fc"], **ua), bs=b.array(c["fc"], **ba), enable_pathloss=pl, enable_shadow_fading=sf, doppler_enabled=dop)
            b.RNG.set(pol)
            ch.set_topology(**b.tt(t))
            h, tau = ch(T, fs)
            ctx.run()
            out[pl, sf] = h.numpy(), tau.numpy()
            if pl and not sf:
                h3, tau3 = ch(B, T, fs)
                ctx.close("h of the call form with batch size", h3.numpy(), h.numpy(), 0, 0)
                ctx.close("delays of the call form with batch size", tau3.numpy(), tau.numpy(), 0, 0)
        tag = f"{cfg} {c['shp']} arrays={ua},{ba} draws={pol}"
        # stages
        sc = b.scenario(*cfg, ut=b.array(c["fc"], **ua), bs=b.array(c["fc"], **ba), enable_shadow_fading=False)
        b.RNG.set(pol)
        sc.set_topology(**b.tt(t))
        lg = b.ntn.LSPGenerator(sc); lg.topology_updated_callback()
        l = lg()
        rg = b.ntn.RaysGenerator(sc); rg.topology_updated_callback()
        r = rg(l)
        R = {k: getattr(r, k).numpy() for k in ("delays", "powers", "aoa", "aod", "zoa", "zod", "xpr")}
        K, SF, PL, los = l.k_factor.numpy(), l.sf.numpy(), np.broadcast_to(lg.sample_pathloss().numpy(), (B, N, U)), sc.los.numpy()
        cds, d3 = sc.get_param("cDS").numpy() * 1e-9, sc.distance_3d.numpy()
        C = R["powers"].shape[-1]
        phi = -np.pi + 2 * np.pi * b.RNG.u(((B, U, N) if up else (B, N, U)) + (C, 20, 4))
        u = b.RNG.u((B,))
        A = ref.Arr(c["fc"], **ua), ref.Arr(c["fc"], **ba)
        nu, nb = A[0].n, A[1].n
        P = C + 4
        want = (B, N, nb, U, nu, P, T) if up else (B, U, nu, N, nb, P, T)
        wtau = (B, N, U, P) if up else (B, U, N, P)
        for k, (h, tau) in out.items():
            ctx.check(h.shape == want, f"shape of h {h.shape}, documented {want} {tag}")
            ctx.check(tau.shape == wtau, f"shape of delays {tau.shape}, documented {wtau} {tag}")
            ctx.check(np.isfinite(h).all() and np.isfinite(tau).all(), "channel not finite " + tag)
        h0, tau0 = out[False, False]
        rad = {x: np.radians(getattr(sc, "los_" + x).numpy()) for x in ("aoa", "aod", "zoa", "zod")}
        for bb, n, m in itertools.product(range(B), range(N), range(U)):
            x = (bb, n, m)
            hgt = t["bs_loc"][bb, n, 2]
            f = np.cos(2 * np.pi * u[bb]) * ref.RE / (ref.RE + hgt) * np.cos(np.radians(c["elev"])) * ref.sat_speed(hgt) * c["fc"] / ref.C0 if dop else 0.
            L = dict(delays=R["delays"][x], powers=R["powers"][x], xpr=R["xpr"][x], K=K[x], los=bool(los[x]), d3=d3[x], v=t["ut_velocities"][bb, m],
                     h=hgt, c_ds=cds[x], fsat=f, moving="tx" if up else "rx")
            U_, B_ = ("aod", "zod"), ("aoa", "zoa")     # name of the angle at the terminal / at the base station in the coefficient sum
            if not up:
                U_, B_ = B_, U_
            for g, (au, ab) in enumerate(zip(U_, B_)):
                su, sb = (("aoa", "aod"), ("zoa", "zod"))[g]     # the stages generate angles from BS (departure) to UT (arrival)
                L[au], L[ab] = R[su][x], R[sb][x]
                L["los_" + au], L["los_" + ab] = rad[su][x], rad[sb][x]
            L["txo"], L["rxo"] = (t["ut_orientations"][bb, m], t["bs_orientations"][bb, n])[::1 if up else -1]
            w, wt = ref.ccg(c["fc"], *(A if up else A[::-1]), T, fs, L, phi[bb, m, n] if up else phi[x])
            got = h0[bb, n, :, m] if up else h0[bb, m, :, n]          # [rx_ant, tx_ant, path, T]
            gt = tau0[bb, n, m] if up else tau0[bb, m, n]
            mx = np.abs(w).max()
            ctx.close(f"h of link (batch {bb}, bs {n}, ut {m}) vs its stages {tag}", np.moveaxis(got, (2, 0, 1), (0, 1, 2)), w, 1e-6, 2e-5 * mx)
            ctx.close(f"delays of link {x} {tag}", gt * 1e9, wt * 1e9, 1e-10, 1e-9)
            # gain switches: one real factor per link
            for (pl, sf), (h, tau) in out.items():
                if not (pl or sf):
                    continue
                hh = h[bb, n, :, m] if up else h[bb, m, :, n]
                tt = tau[bb, n, m] if up else tau[bb, m, n]
                ctx.close(f"delays change with gain switches {tag}", tt, gt, 0, 0)
                g = hh.ravel()[np.abs(got).argmax()] / got.ravel()[np.abs(got).argmax()]
                ctx.close(f"path loss={pl} shadow fading={sf} is not one factor for link {x} {tag}", hh, g * got, 1e-7, 1e-9 * np.abs(g) * mx)
                ctx.check(abs(g.imag) < 1e-9 * abs(g) and g.real > 0, f"gain factor {g} of link {x} not real and positive {tag}")
                if pl and not sf:
                    ctx.close(f"path loss gain in dB of link {x} {tag}", -20 * np.log10(g.real), PL[x], 1e-10, 1e-8)
                elif sf and not pl:
                    ctx.close(f"shadow fading gain of link {x} {tag}", g.real ** 2, SF[x], 1e-10)
        ctx.seen(np.round(h0 / np.abs(h0).max(), 6))

"""P08: large-scale parameters: the affine map from Gaussian draws to log-LSPs, determined completely by unit impulses."""
import itertools
LEVEL = "exploration"
RULE = ("scenario x band x direction x tabulated elevation x LoS/indoor patterns of 3 terminals (8 patterns over batch and satellite), and other numbers of examples, satellites and terminals (2x3x5, 3x1x4, 4x2x1); for each, "
        "all 7 x terminals unit impulses of the Gaussian draws plus zero and extreme draws; non-trivial: distinct covariance matrices")
ASSUMPTIONS = ["the LSPs of a (batch, satellite) pair depend on the draws through an affine map in the log domain (verified on extra draws), so "
               "mean and covariance follow exactly from its impulse response",
               "cross-correlations within a terminal are judged for terminals without spatial correlation (far apart); spatial correlation per LSP"]
FAR = [[0., 0., 1.5], [4e5, 1e5, 1.5], [-3e5, 5e5, 3.]]
NEAR = [[0., 0., 1.5], [34., 15., 1.5], [.4, .3, 3.]]
NEAR2 = [[1000., 0., 1.5], [1000.3, .4, 1.5], [1100., 3., 3.]]


def cases(tier):
    for s, (f, d), e in itertools.product(("urb", "dur", "sur"), ((2e9, "uplink"), (3e9, "downlink"), (20e9, "uplink"), (30e9, "downlink")), range(10, 91, 10)):
        for k in range(2 if tier == "quick" else 6):
            yield dict(scn=s, fc=f, dir=d, elev=float(e), k=k, prec="double")
        if e in (10, 50, 90):
            yield dict(scn=s, fc=f, dir=d, elev=float(e), k=2, prec="single")
        if tier != "quick" or e % 40 == {"urb": 10, "dur": 20, "sur": 30}[s]:
            for k in (6, 7, 8) if tier != "quick" else (6 + (e // 10 + len(d)) % 3,):
                yield dict(scn=s, fc=f, dir=d, elev=float(e), k=k, prec="double")


def run_case(ctx, c):
    import numpy as np
    from .. import build as b, ref, mode
    from ..rng import Func
    tab = ref.Tab(c["scn"], c["fc"], c["dir"], c["elev"])
    k = c["k"]
    if k < 6:
        B, N, U = 2, 2, 3
        pat = [[[0, 3], [5, 6]], [[7, 1], [2, 4]], [[3, 7], [0, 1]], [[4, 5], [7, 6]], [[1, 6], [3, 0]], [[2, 7], [6, 5]]][k]
        ind = np.array([[0, 0, 0], [[0, 0, 0], [1, 0, 0], [0, 1, 1], [0, 0, 0], [0, 0, 0], [1, 1, 0]][k]], bool)
        ut = np.array([FAR, NEAR if k % 2 == 0 else NEAR2])
    else:                       # other numbers of examples, satellites and terminals; the first example is always the spread one
        B, N, U = [(2, 3, 5), (3, 1, 4), (4, 2, 1)][k - 6]
        pat = [[(5 * n + 11 * x * x + 6) % 2 ** U for n in range(N)] for x in range(B)]
        ind = np.array([[x > 0 and (x + u) % 4 == 1 for u in range(U)] for x in range(B)], bool)
        ut = np.array([[[4e5 * (u + 1) * (u % 3 - 1.1), 2e5 * u * (u % 2 - .4), 1.5 + u] if x == 0 else
                        [300. * x + 9. * u * u, -7. * u * (x + 1) + 2 * u ** 3, 1.5 + .3 * u] for u in range(U)] for x in range(B)])
    los = np.array([[[(p >> u) & 1 for u in range(U)] for p in r] for r in pat], bool)
    P, M, ALL = B * N, 7 * U, 7 * B * N * U
    t = b.topo(B, N, U, ut=ut, indoor=ind)
    sc = b.scenario(c["scn"], c["fc"], c["dir"], c["elev"], precision=c["prec"])
    b.RNG.set(b.losdraw(los))
    gen = None
    if mode.WARM:                # the same generator has already served another topology
        with b.warm():
            sc.set_topology(**b.decoy(b.tt(t, c["prec"])))
            gen = b.ntn.LSPGenerator(sc)
            gen.topology_updated_callback()
            gen()
    sc.set_topology(**b.tt(t, c["prec"]))
    gen = gen or b.ntn.LSPGenerator(sc)
    gen.topology_updated_callback()
    los = sc.los.numpy()
    names = ("ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd")
    caps = np.array([np.inf, 104, 104, np.inf, np.inf, 52, 52])
    used = []

    def f(s):
        """s [P, M] draws -> LSPs [B,N,U,7]"""
        def fn(kind, shape):
            used.append(int(np.prod(shape)))
            return s.reshape(-1) if used[-1] == ALL and kind == "z" else np.zeros(shape) + .5
        b.RNG.set(Func(fn))
        l = gen()
        ctx.run()
        return np.stack([getattr(l, n).numpy() for n in names], -1).astype(float)
    tag = f"{c['scn']} {c['fc']/1e9}GHz {c['dir']} {c['elev']}deg los={los.astype(int).tolist()}"
    mu, sg = ref.mu(tab, los), ref.sigma(tab, los)
    z0 = f(np.zeros((P, M)))
    ctx.check(ALL in used, "large-scale parameters do not use one Gaussian draw per link and parameter")
    single = c["prec"] == "single"
    ctx.check(np.isfinite(z0).all() and (z0[mu > -np.inf] > 0).all(), f"LSPs not finite and positive {tag}: {z0.tolist()}")
    ctx.check((z0[mu == -np.inf] == 0).all(), f"departure spreads without tabulated spread are not 0 {tag}")
    want = np.minimum(10.0 ** mu, caps)
    ctx.close("median LSPs (ds,asd,asa,sf,k,zsa,zsd) " + tag, z0, want, 1e-3 if single else 1e-10, 0)
    ext = [f(np.full((P, M), v)) for v in (7., -7.)] + [f(np.where(np.arange(ALL).reshape(P, M) % m < m // 2, 6., -6.)) for m in (2, 5, 14)]
    for v in ext:
        ctx.check(np.isfinite(v).all() and (v >= 0).all() and (v <= caps * (1 + 1e-6)).all(), f"LSPs out of range under extreme draws {tag}: max {v.max(axis=(0,1,2)).tolist()}")
    if single:
        ctx.seen(z0)
        return
    # base point at which no spread is clipped
    best = None
    for kk in [None] + list(range(7)):
        for sgn in ((0,) if kk is None else (-1.5, 1.5, -4, 4)):
            s = np.zeros((P, U, 7))
            if kk is not None:
                s[..., kk] = sgn
            n = (f(s.reshape(P, M)) < .7 * caps)
            if best is None or n.sum() > best[0].sum():
                best = (n, s.reshape(P, M))
        if best[0].all():
            break
    ok, s0 = best
    ctx.check((~ok).sum() <= P * U and ok[..., :5].all(), f"azimuth spreads clipped for all draws {tag}")
    live = (mu > -np.inf) & ok           # entries pinned at the limit by the table itself (zenith spreads) cannot be observed
    lg = lambda v: np.where(live, np.log10(np.where(live, v, 1)), 0).reshape(P, M)
    y0 = lg(f(s0))
    amp = np.array([.1, -.2, .15, -.05, .12, -.08, .07, -.11])[:P]
    A = np.zeros((P, M, M))
    for m in range(M):
        s = s0.copy()
        s[:, m] += amp
        A[:, :, m] = (lg(f(s)) - y0) / amp[:, None]
    mean = y0 - np.einsum("pij,pj->pi", A, s0)
    ctx.close("log-mean " + tag, mean, np.where(live, mu, 0).reshape(P, M), 0, 1e-9)
    # the map is affine and clipped at the limits
    for s in (np.tile(np.linspace(-1.2, 1.1, M), (P, 1)) * amp[:, None] * 20, np.full((P, M), 2.5), np.where(np.arange(ALL).reshape(P, M) % 3 == 0, -3., 1.)):
        p = 10.0 ** np.where(live.reshape(P, M), mean + np.einsum("pij,pj->pi", A, s), -np.inf)
        ctx.close("LSPs as affine map of the draws " + tag, np.where(live, f(s), 0), np.minimum(p.reshape(B, N, U, 7), caps), 1e-9, 0)
    cov = np.einsum("pim,pjm->pij", A, A).reshape(B, N, U, 7, U, 7)
    d = b.geo(c["elev"], t).uu
    for D in (.5, 50., 1e5):
        ctx.close(f"spatial correlation matrix for distance {D} {tag}", sc.spatial_correlation_matrix(D).numpy(), np.exp(-d / D), 1e-9, 1e-12)
    C = {s: ref.cross_corr(tab, s) for s in (True, False)}
    for bb, n in itertools.product(range(B), range(N)):
        st = [2 if ind[bb, u] else int(los[bb, n, u]) for u in range(U)]
        for i in range(U):
            L = bool(los[bb, n, i])
            S = np.where(live[bb, n, i], sg[bb, n, i], 0)
            if bb == 0:
                ctx.close(f"cross-correlation of terminal {i} {tag}", cov[bb, n, i, :, i, :], C[L] * np.outer(S, S), 0, 1e-9)
            for j in range(U):
                got = cov[bb, n, i, :, j, :]
                Sj = np.where(live[bb, n, j], sg[bb, n, j], 0)
                if st[i] != st[j] or (bb == 0 and i != j):
                    ctx.close(f"correlation between terminals {i},{j} in different states or far apart {tag}", got, 0 * got, 0, 1e-9)
                else:
                    D = np.array([tab.one("corrDist" + x, L) for x in ref.LSPN])
                    ctx.close(f"spatial correlation of terminals {i},{j} {tag}", np.diag(got), S * Sj * np.exp(-d[bb, i, j] / D), 0, 1e-9)
    ctx.seen(np.round(cov, 5))

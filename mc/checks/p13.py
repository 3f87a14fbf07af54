"""P13: sub-clustering, order of paths and Rician combination for every order of cluster powers."""
import itertools
LEVEL = "exploration"
RULE = ("all orders of the powers of 2, 3 and 4 clusters (and zero-power clusters), cluster-delay-spread and K-factor alphabets, LoS patterns, "
        "sub-clustering on/off; 7 and 24 clusters with the two strongest at every pair of places (quick: part of them for 24); coefficients and delays of all paths are compared with the reference; whole models x mixed LoS patterns of "
        "satellites and terminals: order and sub-cluster spacing of the delays of every link; non-trivial: distinct (delays, coefficients)")
ASSUMPTIONS = ["ties of powers: any assignment of the tied clusters is accepted through delay/coefficient consistency (sums per delay)"]


def cases(tier):
    for C in (2, 3, 4):
        for pi, perm in enumerate(itertools.permutations(range(C))):
            for z in range(0, C - 1):
                yield dict(C=C, perm=list(perm), zero=z, k=pi + z, sub=True)
            yield dict(C=C, perm=list(perm), zero=0, k=pi, sub=False)
    # the two strongest of many clusters at every pair of places
    for C in ((7, 24) if tier == "quick" else (7, 12, 24)):
        for x, y in itertools.permutations(range(C), 2):
            if tier == "quick" and C > 7 and ((x - y) % C not in (1, 12) or x % 3):
                continue
            r = iter(range(2, C))
            yield dict(C=C, perm=[0 if i == x else 1 if i == y else next(r) for i in range(C)], zero=(x + y) % 3, k=x + 3 * y, sub=True)
    for n, (s, f, d) in enumerate(itertools.product(("urb", "dur", "sur"), (2e9, 20e9), ("uplink", "downlink"))):
        yield dict(kind="model", scn=s, fc=f, dir=d, elevs=[min(90., 10. * (1 + (n * 4 + 3 * i) % 9) + (n % 3)) for i in range(3 if tier == "quick" else 9)], k=n)
    if tier != "quick":
        for perm in itertools.permutations(range(6)):
            yield dict(C=6, perm=list(perm), zero=0, k=sum(perm[:2]), sub=True)


def whole(ctx, c):
    """spacing 1.28 and 2.56 cDS of the link's own LoS state in the delays of a whole model"""
    import numpy as np
    from .. import build as b, ref
    B, N, U = 2, 3, 3
    up = c["dir"] == "uplink"
    for e, i in itertools.product(c["elevs"], range(6)):
        cfg = (c["scn"], c["fc"], c["dir"], e)
        t = b.topo(B, N, U)
        pol = ["table", 7 * i + c["k"]]
        sc, ch = b.scenario(*cfg), b.channel(*cfg)
        for x in (sc, ch):
            b.RNG.set(pol)
            x.set_topology(**b.tt(t), **({} if i % 3 else dict(los=i == 0)))
        los = sc.los.numpy()
        h, tau = ch(1, 1e6)
        ctx.run()
        tau = tau.numpy() * 1e9
        tau = tau if up else tau.swapaxes(1, 2)
        cds = ref.Tab(c["scn"], c["fc"], c["dir"], e).link("cDS", los)
        tag = f"{cfg} LoS states={los.astype(int).tolist()}"
        ctx.check((np.diff(tau, axis=-1) >= 0).all(), "paths not in order of delay " + tag)
        for x in np.ndindex(B, N, U):
            d = tau[x]
            n = sum(all(np.abs(d - a - f * cds[x]).min() < 1e-6 for f in (1.28, 2.56)) for a in d)
            ctx.check(n >= 2, f"{n} clusters of link {x} (LoS {bool(los[x])}) are split at 1.28 and 2.56 times {cds[x]} ns, delays {np.round(d, 3).tolist()} {tag}")
        ctx.seen(np.round(tau, 4))


def run_case(ctx, c):
    if c.get("kind") == "model":
        return whole(ctx, c)
    import numpy as np
    from .. import coefcommon as cc
    C = c["C"]
    base = np.array(([.4, .25, .15, .1, .06, .04] if C < 7 else [.3, .2] + [.15 * .9 ** i for i in range(C)])[:C])
    if c["zero"]:
        base[C - c["zero"]:] = 0
    p = (base / base.sum())[np.array(c["perm"])]
    for cds, K, los, mv in itertools.product((0., 3.91e-9, 60e-9, 300e-9) if ctx.tier != 'quick' else (0., 3.91e-9, 120e-9), (.05, 3., 500.) if ctx.tier != 'quick' else (.05, 40.), (True, False, None), ("rx", "tx")):
        if (c["k"] + int(K) + int(cds * 1e9)) % 2 and mv == "tx":
            continue
        if C >= 7 and (cds == 0 or los is False or (c["k"] + int(K)) % 3 and ctx.tier == "quick"):
            continue
        q = cc.make(1, 1 if los is None else 2, 2, C, c["k"], los=los, K=K, c_ds=cds if los is not None else None, powers=p, moving=mv)
        tag = f"powers={np.round(p,3).tolist()} cDS={cds} K={K} LoS={los} moving={mv} subclustering={c['sub']}"
        kinds = (dict(), dict(pol="dual", typ="cross"))
        if cds == 0:      # equal delays: compare sums over equal delays
            h, tau, phi, st = cc.run(q, *kinds, 2, 1e6, c["sub"])
            wh, wt = cc.reference(q, *kinds, 2, 1e6, c["sub"], phi, np.zeros(1))
            ctx.run()
            ctx.close("delays " + tag, tau, wt, 1e-9, 1e-15)
            for x in np.ndindex(tau.shape[:3]):
                for d in np.unique(np.round(wt[x] * 1e12)):
                    m = np.round(wt[x] * 1e12) == d
                    ctx.close(f"sum of coefficients at delay {d} ps {tag}", h[x][m].sum(0), wh[x][m].sum(0), 1e-7, 1e-7 * np.abs(wh).max())
        else:
            h, tau, wh, wt, _, _ = cc.judge(ctx, q, *kinds, 2, 1e6, c["sub"], tag)
        ctx.check((np.diff(tau, axis=-1) >= 0).all(), "paths not in order of delay " + tag)
        n = C + 4 if c["sub"] else C
        ctx.check(tau.shape[-1] == n and h.shape[3] == n, f"{tau.shape[-1]} paths, expected {n} {tag}")
        ctx.seen(np.round(tau * 1e12), np.round(h, 6))
    # ties: total coefficient is the sum over all rays, whichever clusters are split
    if C > 12:
        return
    q = cc.make(1, 2, 1, C, c["k"], los=False, powers=np.full(C, 1 / C), c_ds=5e-9)
    a = cc.run(q, {}, {}, 1, 1e6, True)[0].sum(3)
    b = cc.run(q, {}, {}, 1, 1e6, False)[0].sum(3)
    ctx.run(2)
    ctx.close("sum over all paths, split and unsplit, equal powers", a, b, 1e-8, 1e-10)

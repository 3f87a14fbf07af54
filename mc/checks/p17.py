"""P17: links do not influence each other; permutation equivariance; independent draws."""
import itertools
LEVEL = "exploration"
RULE = ("a reference batch of 3 examples x 2 satellites x 3 terminals whose draws are keyed by the identity of the link; all sub-batches, all "
        "single satellites, subsets of terminals, and all permutations of batch examples, satellites and (uncorrelated) terminals must give the same link results; "
        "large topologies (17 examples, 3 satellites, 11 terminals) against every example and satellite alone and groups of three terminals; "
        "sensitivity: each random draw is perturbed alone; non-trivial: distinct channel tensors")
ASSUMPTIONS = ["draws have shape [batch, ...] with satellite and terminal axes next, as in the documentation of the stages",
               "signs of cluster angles and ray coupling are shared by the terminals of a satellite (as inherited from Sionna)",
               "terminals are permuted only without spatial correlation (far apart), since the correlation filter orders them"]


def cases(tier):
    n = 0
    for s, (f, d), e in itertools.product(("urb", "dur", "sur"), ((2e9, "uplink"), (3e9, "downlink"), (20e9, "uplink"), (30e9, "downlink")), (10., 50., 80.)):
        n += 1
        if tier == "quick" and (n + n // 3) % 3:
            continue
        yield dict(kind="eq", scn=s, fc=f, dir=d, elev=e, k=n)
    for s, (f, d), e in itertools.product(("urb", "dur", "sur"), ((2e9, "uplink"), (30e9, "downlink")), (20., 60.)):
        yield dict(kind="sens", scn=s, fc=f, dir=d, elev=e)
    for i, (s, (f, d)) in enumerate(itertools.product(("urb", "dur", "sur"), ((2e9, "uplink"), (30e9, "downlink")))):
        if tier == "thorough" or i in (0, 3, 5):
            yield dict(kind="big", scn=s, fc=f, dir=d, elev=(20., 60., 80.)[i % 3], k=i)


def run_case(ctx, c):
    import numpy as np
    from .. import build as b, ref
    from ..rng import Func, Table
    cfg = (c["scn"], c["fc"], c["dir"], c["elev"])
    up = c["dir"] == "uplink"
    if c["kind"] == "sens":
        return sens(ctx, c, np, b, Func, Table)
    XB, XN, XU = (17, 3, 11) if c["kind"] == "big" else (3, 2, 3)
    FAR = np.array([[[1000. + 4e5 * u * (1 + .1 * (e % 5)), 3e5 * u - 7e4 * e, 1.5 + u] for u in range(XU)] for e in range(XB)])
    BS = np.array([[[1e4 * e, -2e4 * n, [600e3, 300e3, 1200e3][(e + 2 * n) % 3]] for n in range(XN)] for e in range(XB)])
    base = Table(c["k"] % 5)

    def keyed(bi, ni, ui):
        B, N, U = len(bi), len(ni), len(ui)

        def fn(kind, shape):
            tr = int(np.prod(shape[3:])) if len(shape) > 3 else 1
            bi_ = np.array(bi) * 4099
            if len(shape) == 1 or len(shape) == 2:
                x, y = 0, 0
                key = bi_[:, None] + np.arange(int(np.prod(shape)) // B)[None]
            else:
                if shape[1:3] == (N, U):
                    m = np.array(ni)[:, None] * 1531 + np.array(ui)[None] * 389
                elif shape[1:3] == (U, N):
                    m = np.array(ui)[:, None] * 389 + np.array(ni)[None] * 1531
                elif shape[1:3] == (N, 1):
                    m = np.array(ni)[:, None] * 1531
                else:
                    raise RuntimeError(f"draw of shape {shape}")
                key = bi_[:, None, None, None] + m[None, :, :, None] + np.arange(tr) * (1 if tr < 300 else 7)
            return base.table(kind)[key % 8191].reshape(shape)
        return Func(fn)

    def run(bi, ni, ui, only=None):
        t = b.topo(XB, XN, XU, ut=FAR, bs=BS)
        t = {k: v[bi] for k, v in t.items()}
        for k in ("bs_loc", "bs_orientations"):
            t[k] = t[k][:, ni]
        for k in ("ut_loc", "ut_orientations", "ut_velocities", "in_state"):
            t[k] = t[k][:, ui]
        ch = b.channel(*cfg)
        b.RNG.set(keyed(bi, ni, ui))
        ch.set_topology(**b.tt(t))
        h, tau = ch(2, 1e5)
        ctx.run()
        h, tau = h.numpy(), tau.numpy()
        h = np.moveaxis(h, (1, 3), (1, 2)) if up else np.moveaxis(h, (3, 1), (1, 2))        # [B, bs, ut, ...]
        return h, (tau if up else np.swapaxes(tau, 1, 2))
    if c["kind"] == "big":
        # many examples, satellites and terminals at once against each of them alone
        al, an, au = list(range(XB)), [0, 1], [0, 1, 2]
        for full, parts in (((al, an, au), [([x], an, au) for x in al]),
                            (([0, 1], [1, 2], list(range(XU))), [([0, 1], [1, 2], sorted((x, (x + 1) % XU, (x + 4) % XU))) for x in range(XU)]),
                            (([1], [0, 1, 2], list(range(XU))), [([1], [n], list(range(XU))) for n in range(XN)])):
            H, TAU = run(*full)
            ctx.seen(np.round(H / np.abs(H).max(), 6))
            mx = np.abs(H).max(axis=(3, 4, 5, 6), keepdims=True)
            for q in parts:
                h, tau = run(*q)
                ix = np.ix_(*[[f.index(x) for x in y] for f, y in zip(full, q)])
                tag = f"{cfg}: batch {q[0]}, satellites {q[1]}, terminals {q[2]} vs a topology of {[len(f) for f in full]}"
                ctx.close("h " + tag, h / mx[ix], H[ix] / mx[ix], 0, 1e-8)
                ctx.close("delays " + tag, tau * 1e9, TAU[ix] * 1e9, 1e-9, 1e-9)
        return
    H, TAU = run([0, 1, 2], [0, 1], [0, 1, 2])
    ctx.seen(np.round(H / np.abs(H).max(), 6))
    mx = np.abs(H).max(axis=(3, 4, 5, 6), keepdims=True)
    sels = [([x], [0, 1], [0, 1, 2]) for x in range(3)] + [([0, 1, 2], [n], [0, 1, 2]) for n in range(2)] + [([0, 2], [1], [0, 1, 2]), ([1], [0], [0, 1, 2])]
    sels += [(list(p), [0, 1], [0, 1, 2]) for p in list(itertools.permutations(range(3)))[1:]] + [([0, 1, 2], [1, 0], [0, 1, 2])]
    sels += [([0, 1, 2], [0, 1], list(p)) for p in list(itertools.permutations(range(3)))[1:]] + [([2, 0], [1, 0], [1, 2, 0])]
    # fewer terminals (combinations whose draw shapes identify the roles of the axes)
    sels = sels[:7] + [([0, 1, 2], [0, 1], [0]), ([0, 1, 2], [c["k"] % 2], [1, 2]), ([2, 1], [1 - c["k"] % 2], [2, 0]), ([0, 1, 2], [0], [0, 1])] + sels[7:]
    for i, (bi, ni, ui) in enumerate(sels):
        if ctx.tier == "quick" and i > 10 and (i + c["k"]) % 2:
            continue
        h, tau = run(bi, ni, ui)
        ix = np.ix_(bi, ni, ui)
        tag = f"{cfg}: batch {bi}, satellites {ni}, terminals {ui} vs full batch"
        w = H[ix] / mx[ix]
        ctx.close("h " + tag, h / mx[ix], w, 0, 1e-8)
        ctx.close("delays " + tag, tau * 1e9, TAU[ix] * 1e9, 1e-9, 1e-9)
    # changing the content of other batch examples / satellites must not matter
    keep = b.topo
    t = b.topo(3, 2, 3, ut=FAR, bs=BS)
    for what in ("batch", "bs", "ut"):
        t2 = {k: v.copy() for k, v in t.items()}
        if what == "batch":
            t2["ut_loc"][1] += 5e3; t2["bs_loc"][1, :, 2] *= .4; t2["ut_velocities"][1] *= -3; t2["in_state"][1, 0] = True; sel = ([0, 2], [0, 1])
        elif what == "ut":
            t2["ut_loc"][:, 1, 0] += 7e4; t2["ut_orientations"][:, 1] -= .4; t2["ut_velocities"][:, 1] *= 2; t2["in_state"][0, 1] = True; sel = ([0, 1, 2], [0, 1], [0, 2])
        else:
            t2["bs_loc"][:, 1, 2] *= 1.7; t2["bs_loc"][:, 1, :2] += 4e4; t2["bs_orientations"][:, 1] += .5; sel = ([0, 1, 2], [0])
        ch = b.channel(*cfg)
        b.RNG.set(keyed([0, 1, 2], [0, 1], [0, 1, 2]))
        ch.set_topology(**b.tt(t2))
        h, tau = (x.numpy() for x in ch(2, 1e5))
        ctx.run()
        h = np.moveaxis(h, (1, 3), (1, 2)) if up else np.moveaxis(h, (3, 1), (1, 2))
        tau = tau if up else np.swapaxes(tau, 1, 2)
        ix = np.ix_(*sel)
        ctx.close(f"h of unchanged links after another {what} changed {cfg}", h[ix] / mx[ix], H[ix] / mx[ix], 0, 1e-7)
        ctx.close(f"delays of unchanged links after another {what} changed {cfg}", tau[ix], TAU[ix], 1e-9, 1e-18)


def sens(ctx, c, np, b, Func, Table):
    """each random draw alone perturbed: angle kinds and XPRs must have private draws"""
    from .. import raycommon as rc
    t = b.topo(2, 2, 3)
    sc, gen = rc.setup(c, rc.pats()[0], t)
    los = sc.los.numpy()
    l = rc.lsps(los.shape, 3)
    for k in ("ASD", "ASA", "ZSA", "ZSD"):
        l[k] = np.minimum(l[k], 10.) + 1
    A, Bt = Table(1), Table(2)

    def run(flip, low=False):
        cnt = [0]

        def fn(kind, shape):
            k = int(np.prod(shape))
            i = cnt[0]; cnt[0] += 1
            return (Bt if i == flip else A).table(kind)[np.arange(k) % 8191].reshape(shape)
        b.RNG.set(Func(fn))
        r = rc.generate(gen, l)
        ctx.run()
        return cnt[0], r
    n, r0 = run(-1)
    names = ("delays", "powers", "aoa", "aod", "zoa", "zod", "xpr")
    eff = []
    for i in range(n):
        _, r = run(i)
        eff.append({k for k in names if not np.allclose(r[k], r0[k], rtol=1e-9, atol=1e-15)})
    tag = f"{c['scn']} {c['fc']/1e9}GHz {c['dir']} {c['elev']}deg: effects of the draws {[sorted(e) for e in eff]}"
    live = [k for k in ("aoa", "aod", "zoa", "zod", "xpr") if any(k in e for e in eff)]
    ctx.check(set(live) >= {"aoa", "zoa", "xpr"}, "angles or XPR do not depend on any draw: " + tag)
    for x, y in itertools.permutations(live, 2):
        ctx.check(any(x in e and y not in e for e in eff), f"{x} has no draw of its own apart from {y}: " + tag)
    ctx.check(any("powers" in e and "delays" not in e for e in eff), "cluster shadowing has no draw of its own: " + tag)
    ctx.check(any("delays" in e for e in eff), "delays depend on no draw: " + tag)
    common = [e for e in eff if e & {"delays", "powers"}]
    for e in eff:
        if e & {"delays", "powers"}:
            continue
        ctx.check(len(e) <= 1, f"one draw is shared by {sorted(e)}: " + tag)
    # LSPs, rays and phases use different draws: the channel changes when only one of them is perturbed
    ctx.seen([sorted(e) for e in eff])

"""P11: ray coupling permutes rays within clusters, independently for the four angle kinds; XPRs are log-normal."""
import itertools
from .. import raycommon as rc
LEVEL = "exploration"
RULE = ("configurations x LoS patterns x random draws for the permutation property and the XPRs; for independence, all combinations of "
        "{identity, reversal, rotation} of the coupling draws, and no permutation shared by two clusters; non-trivial: distinct (permutation, XPR) tensors")
ASSUMPTIONS = ["uncoupled ray angles of a cluster are the reference's (P10); the ray of an angle is recognised by its offset",
               "one normal draw per XPR"]


def cases(tier):
    for i, j, c in rc.configs(tier):
        yield dict(c, kind="perm", k=i + j, n=2 if tier == "quick" else 6)
    for s, (f, d) in itertools.product(("urb", "dur", "sur"), ((2e9, "uplink"), (30e9, "downlink"))):
        for e in (10., 50., 90.) if tier == "quick" else range(10, 91, 10):
            yield dict(scn=s, fc=f, dir=d, elev=float(e), kind="ind")


def ray_index(np, ref, v, w):
    """index of the offset each ray of v belongs to; v, w [..., 20] degrees (w in offset order); ambiguous -> -1"""
    d = np.abs((v[..., :, None] - w[..., None, :] + 180) % 360 - 180)
    i = d.argmin(-1)
    ok = np.take_along_axis(d, i[..., None], -1)[..., 0] < 0.005 * np.ptp(w, axis=-1)[..., None]
    return np.where(ok, i, -1)


def run_case(ctx, c):
    import numpy as np
    from .. import build as b, ref
    from ..rng import Func, Table
    tab = ref.Tab(c["scn"], c["fc"], c["dir"], c["elev"])
    C = tab.C()
    t = b.topo(2, 2, 3)
    g = b.geo(c["elev"], t)
    # spreads small enough that no ray is reflected at the zenith or wrapped; K moderate
    base = dict(DS=1e-7, ASD=1., ASA=5., SF=1., K=4., ZSA=1., ZSD=.5)
    for pi, pat in enumerate(rc.pats()):
        sc, gen = rc.setup(c, pat, t)
        los = sc.los.numpy()
        l = {k: np.full(los.shape, v) for k, v in base.items()}
        ex = np.broadcast_to(ref.mask(tab, los, C), los.shape + (C,))
        if c["kind"] == "perm":
            for pol in [["table", c["k"] + q] for q in range(c["n"])] + [["const", .4, 1.5], ["const", .9, -1.], ["const", .2, 0.]]:
                b.RNG.set(pol)
                w = ref.rays(tab, g, los, t["in_state"], l, b.RNG)
                r = rc.generate(gen, l)
                ctx.run()
                tag = f"{c['scn']} {c['fc']/1e9}GHz {c['dir']} {c['elev']}deg draws={pol}"
                for a in ("aoa", "aod", "zoa", "zod"):
                    v, ww = np.degrees(r[a]), w[a]
                    if a[0] == "a":
                        cen = ww[..., :1]; v, ww = (v - cen + 180) % 360 - 180, (ww - cen + 180) % 360 - 180
                    ctx.close(f"rays of a cluster after coupling ({a}) {tag}", np.where(ex[..., None], np.sort(v, -1), 0), np.where(ex[..., None], np.sort(ww, -1), 0), 0, 1e-5)
                x = r["xpr"]
                ctx.check(x.shape == los.shape + (C, 20), f"XPR shape {x.shape}")
                ctx.check((x > 0).all() and np.isfinite(x).all(), "XPR not positive " + tag)
                ctx.close("XPR in dB " + tag, 10 * np.log10(x), 10 * np.log10(w["xpr"]), 1e-9, 1e-9)
                ctx.seen(np.round(r["aoa"], 6), np.round(x, 3))
            continue
        # independence: k-th coupling draw realises permutation perm[k]
        tabl = Table(3)
        P = [np.arange(20), np.arange(19, -1, -1), (np.arange(20) + 7) % 20]
        b.RNG.set(["table", 3])
        w = ref.rays(tab, g, los, t["in_state"], l, b.RNG)
        # kinds whose cluster spread is tabulated as 0 on some link are invariant under permutations
        KINDS = [a for a in ("aoa", "aod", "zoa", "zod") if np.ptp(w[a][ex], axis=-1).min() > .02]
        outs, n = {}, None

        def once(combo):
            cnt = [0]

            def fn(kind, shape):
                k = int(np.prod(shape))
                if shape[-1:] == (20,):
                    i = cnt[0]; cnt[0] += 1
                    p = P[combo[i] if i < len(combo) else 0]
                    return np.broadcast_to((p + .5) / 20 * (1 if kind == "u" else .8), shape)
                return tabl.table(kind)[np.arange(k) % 8191].reshape(shape)
            b.RNG.set(Func(fn))
            r = rc.generate(gen, l)
            ctx.run()
            sig = []
            for a in KINDS:
                v = np.degrees(r[a])
                q = ray_index(np, ref, v, w[a])
                bad = ex[..., None] & (q < 0)
                ctx.check(not bad.any(), f"{a}: a ray is not one of its cluster's rays")
                s = np.where(ex[..., None], np.sort(q, -1), np.arange(20))
                ctx.check((s == np.arange(20)).all(), f"{a}: coupling is not a permutation")
                sig.append(q)
            return cnt[0], sig
        n, _ = once((0,) * 6)
        ctx.check(n >= 4, f"only {n} independent coupling draws for four kinds of angles")
        free = []                       # draws that influence the angles at all
        ref0 = once((0,) * n)[1]
        for i in range(n):
            s = once(tuple(1 if k == i else 0 for k in range(n)))[1]
            ch = [k for k in range(len(KINDS)) if not (s[k] == ref0[k]).all()]
            if ch:
                free.append((i, ch))
        obs = [k for k in range(len(KINDS)) if any(k in ch for _, ch in free)]
        ctx.check(len(obs) == len(KINDS), f"only kinds {[KINDS[k] for k in obs]} of {KINDS} are ever permuted")
        draws = [i for i, _ in free]
        seen = set()
        for combo in itertools.product(range(3), repeat=len(draws)):
            full = [0] * n
            for i, v in zip(draws, combo):
                full[i] = v
            s = once(tuple(full))[1]
            seen.add(tuple(x[ex].tobytes() for k, x in enumerate(s) if k in obs))
            if len(draws) > 4 and len(seen) >= 3 ** len(obs):
                break
        ctx.check(len(seen) >= 3 ** len(obs), f"coupling of the angle kinds is not independent: {len(seen)} joint permutations from {3 ** len(obs)} combinations of draws")
        # every cluster of every base station and batch example has a permutation of its own
        for k in (1, 2):
            def fn(kind, shape):
                if shape[-1:] == (20,):
                    x = np.random.RandomState(k).permutation(int(np.prod(shape))).reshape(shape) / np.prod(shape)
                    return x if kind == "u" else 2 * x - 1
                return tabl.table(kind)[np.arange(int(np.prod(shape))) % 8191].reshape(shape)
            b.RNG.set(Func(fn))
            r = rc.generate(gen, l)
            ctx.run()
            for a in KINDS:
                q = ray_index(np, ref, np.degrees(r[a]), w[a])
                own = {}
                for i in zip(*np.nonzero(ex)):
                    own.setdefault(q[i].tobytes(), set()).add((i[0], i[1], i[3]))
                dup = [tuple(int(y) for y in x) for v in own.values() if len(v) > 1 for x in list(v)[:2]]
                ctx.check(not dup, lambda: f"{a}: {sum(len(v) > 1 for v in own.values())} permutations are shared by several clusters, e.g. {dup[:2]}")
        ctx.seen(c["scn"], c["dir"], pi, len(seen))
        break

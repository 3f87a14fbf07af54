"""P02: LoS states: breadth-first over update histories against a two-variable model (requested state, indoor pattern)."""
import itertools
REUSE = False
LEVEL = "model_checking"
RULE = ("all sequences of topology updates up to the depth bound over {LoS request none/true/false} x {indoor pattern change} x {locations}; "
        "the draws of the links run through {0, just below p, p, just above p, 1} in every rotation; the same requests, indoor patterns and draws on topologies of other shapes, up to 33 terminals, 19 examples, 12 satellites; a state is (requested, indoor, draw rotation)")
ASSUMPTIONS = ["LoS draws are uniform numbers of shape [batch, bs, ut]"]
# events: (los, indoor pattern index, locations)
EV = [["n", None, 1], ["T", None, 0], ["F", None, 0], ["n", 1, 0], ["n", 2, 0], ["T", 3, 1], ["F", 2, 1], ["n", 0, 1], ["n", 0, 0]]
IND = [[0, 0, 0], [1, 0, 0], [0, 1, 1], [1, 1, 1], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1]]
SHAPES = [(1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 3, 1), (3, 2, 1), (2, 3, 4), (1, 1, 33), (19, 1, 2), (1, 12, 2), (3, 3, 3)]


def cases(tier):
    depth = 2 if tier == "quick" else 3
    combos = [("urb", 2e9, "uplink", 10.), ("dur", 20e9, "downlink", 50.), ("sur", 30e9, "uplink", 90.)]
    for cfg in combos:
        for h in itertools.product(range(len(EV)), repeat=depth):
            yield dict(kind="hist", cfg=cfg, hist=list(h))
    els = range(10, 91, 10) if tier == "thorough" else (10, 20, 30, 40, 50, 60, 70, 80, 90)
    for s, e in itertools.product(("urb", "dur", "sur"), els):
        yield dict(kind="grid", cfg=(s, 2e9 if e % 20 else 20e9, "downlink" if e % 40 else "uplink", float(e)))
    for i, (s, sh) in enumerate(itertools.product(("urb", "dur", "sur"), SHAPES)):
        yield dict(kind="shape", cfg=(s, (2e9, 30e9)[i % 2], ("uplink", "downlink")[i // 2 % 2], 10. * (i % 9 + 1)), shape=list(sh))


def expected(np, req, ind, u, p):
    los = np.full(u.shape, req) if req is not None else u < p
    return los & ~np.asarray(ind, bool)[:, None, :]


def run_case(ctx, c):
    import numpy as np
    from .. import build as b, ref
    from ..rng import Func
    s, f, d, e = c["cfg"]
    p = ref.Tab(s, f, d, e).one("LoS_p", False)
    al = np.array([0.0, np.nextafter(p, 0), p, np.nextafter(p, 1), p / 2, 0.9999999, (1 + p) / 2])
    B, N, U = c.get("shape", (2, 2, 3))
    t = b.topo(B, N, U)

    def rot(k):
        return al[(np.arange(B * N * U) + k) % len(al)].reshape(B, N, U)

    def setpol(u):
        b.RNG.set(Func(lambda kind, shape: u if tuple(shape) == u.shape and kind == "u" else np.full(shape, 0.37), "los"))
    if c["kind"] == "grid":
        for k, ind, req in itertools.product(range(len(al)), range(8), (None, True, False)):
            if req is not None and k:
                continue
            sc = b.scenario(s, f, d, e)
            u = rot(k); setpol(u)
            ii = np.array([IND[ind], IND[(ind + 3) % 8]], bool)
            tk = dict(t, in_state=ii)
            sc.set_topology(**b.tt(tk), los=req)
            ctx.run(); ctx.trans += 1; ctx.traces += 1
            ctx.state(s, e, req, ii, k)
            want = expected(np, req, ii, u, p)
            ctx.check((sc.los.numpy() == want).all(), f"LoS states {sc.los.numpy().astype(int).tolist()} expected {want.astype(int).tolist()} (request {req}, indoor {ii.astype(int).tolist()}, draws vs p={p}: {np.sign(u-p).tolist()})")
            ctx.check((sc.indoor.numpy() == ii).all(), "indoor state changed")
            ctx.seen(want.astype(int).tolist(), req)
        return
    if c["kind"] == "shape":
        sc = b.scenario(s, f, d, e)
        for k, pat, req in itertools.product(range(len(al)), range(4), (None, True, False)):
            if req is not None and k:
                continue
            u = rot(k); setpol(u)
            ii = ((np.arange(B * U) * (2 * pat + 1)) % 5 < pat).reshape(B, U)
            # a fresh object per request: a requested state stays in force
            sc = b.scenario(s, f, d, e)
            sc.set_topology(**b.tt(dict(t, in_state=ii)), los=req)
            ctx.run(); ctx.trans += 1; ctx.traces += 1
            ctx.state(s, e, (B, N, U), req, ii, k)
            want = expected(np, req, ii, u, p)
            got = sc.los.numpy()
            ctx.check(got.shape == want.shape and (got == want).all(), lambda: f"LoS states of a topology of {B, N, U} differ in {np.argwhere(got != want)[:3].tolist() if got.shape == want.shape else got.shape} (request {req}, pattern {pat}, draws {k})")
            ctx.seen(want.astype(int).tolist(), req)
        return
    sc = b.scenario(s, f, d, e)
    req, ind = None, np.array([IND[4], IND[1]], bool)
    first = True
    for k, ev in enumerate(c["hist"]):
        r, ip, lc = EV[ev]
        kw = {}
        if r != "n":
            req = kw["los"] = r == "T"
        if ip is not None:
            ind = np.array([IND[ip], IND[(ip + 5) % 8]], bool); kw["in_state"] = b.tf.constant(ind)
        if first:
            full = b.tt(dict(t, in_state=ind)); full.update(kw); kw = full; first = False
        elif lc or not kw:
            kw["ut_loc"] = b.tt(b.topo(B, N, U))["ut_loc"] + 3.0 * k
        u = rot(3 * k + ev); setpol(u)
        sc.set_topology(**kw)
        want = expected(np, req, ind, u, p)
        ctx.run(); ctx.trans += 1; ctx.state(s, req, ind, 3 * k + ev)
        ctx.check((sc.los.numpy() == want).all(), f"after {c['hist'][:k+1]}: LoS states {sc.los.numpy().astype(int).tolist()} expected {want.astype(int).tolist()} (request {req}, indoor {ind.astype(int).tolist()}, below p: {(u<p).astype(int).tolist()})")
        ctx.seen(want.astype(int).tolist(), req)
    ctx.traces += 1

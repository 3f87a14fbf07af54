"""P04: lifetime of large-scale parameters over sequences of calls and updates, each step with new random draws."""
import itertools
REUSE = False
LEVEL = "model_checking"
RULE = ("all sequences up to the depth bound over {call, location / satellite / indoor / LoS-request updates, orientation / velocity updates, empty "
        "update}, the random source giving new values at every step, for both modes (fixed and always-generate) and both directions; a state is "
        "(argument versions, step of the last redraw, step of the first call after it)")
ASSUMPTIONS = ["LSPs are observed where the ray generator receives them", "the mapping from draws to LSPs is judged by P08; here a fresh model replaying (update, call) under the same draws is the reference"]
EV = ["call", "ut_loc", "bs_loc", "ind", "losT", "losF", "ori", "bori", "vel", "none"]
REDRAW = {"ut_loc", "bs_loc", "ind", "losT", "losF"}
CFG = [("urb", 2e9, "uplink", 40.), ("sur", 20e9, "downlink", 60.), ("dur", 3e9, "downlink", 30.)]


def cases(tier):
    d = 2 if tier == "quick" else 3
    for ci, cfg in enumerate(CFG):
        for al in (False, True):
            dd = d - 1 if tier == "quick" and (ci == 2 or al and ci) else d
            for i, h in enumerate(itertools.product(range(len(EV)), repeat=dd)):
                if EV[h[-1]] == "call":        # final calls are appended anyway
                    continue
                yield dict(cfg=cfg, always=al, hist=list(h), tail=i % 9 == 2)


def run_case(ctx, c):
    import numpy as np
    from .. import build as b
    tf = b.tf
    mem = ctx.__dict__.setdefault("p04", {})
    cfg = c["cfg"]
    cls = b.ntn.RaysGenerator
    orig = mem.setdefault("orig", cls.__call__)
    rec = []

    def spy(self, *a, **k):
        l = a[0] if a else next(iter(k.values()))
        rec.append({n: getattr(l, n).numpy().copy() for n in ("ds", "asd", "asa", "sf", "k_factor", "zsa", "zsd")})
        r = orig(self, *a, **k)
        rec[-1]["delays"] = r.delays.numpy().copy()
        rec[-1]["xpr"] = r.xpr.numpy().copy()
        return r
    cls.__call__ = spy
    t = b.topo(2, 2, 2)

    def args(v):
        o = {}
        o["ut_loc"] = t["ut_loc"] + 40. * v["ut_loc"]
        o["bs_loc"] = t["bs_loc"] * (1 + .1 * v["bs_loc"])
        o["ut_orientations"] = t["ut_orientations"] + .4 * v["ori"]
        o["bs_orientations"] = t["bs_orientations"] + .3 * v["bori"]
        o["ut_velocities"] = t["ut_velocities"] * (1 + v["vel"])
        o["in_state"] = np.array([[0, 0], [0, v["ind"] % 2]], bool)
        return b.tt(o)

    def update(ch, ev, v):
        a = args(v)
        m = dict(ut_loc="ut_loc", bs_loc="bs_loc", ori="ut_orientations", bori="bs_orientations", vel="ut_velocities", ind="in_state")
        ch.set_topology(**({m[ev]: a[m[ev]]} if ev in m else {"los": ev == "losT"} if ev in ("losT", "losF") else {}))

    def call(ch, e):
        b.RNG.set(["table", 0], epoch=e)
        del rec[:]
        h, tau = ch(2, 1e5)
        ctx.run()
        ctx.check(len(rec) == 1, f"{len(rec)} ray generations in one call")
        return dict(rec[0], h=h.numpy(), tau=tau.numpy())

    def fresh(v, los, e_upd, e_first, e_call):
        k = (str(cfg), c["always"], tuple(sorted(v.items())), los, e_upd, e_first, e_call)
        if k not in mem:
            ch = b.channel(*cfg, always_generate_lsp=c["always"])
            b.RNG.set(["table", 0], epoch=e_upd)
            ch.set_topology(**args(v), los=los)
            if e_first != e_call:
                call(ch, e_first)
            mem[k] = call(ch, e_call)
        return mem[k]

    def same(x, y, f):
        return np.allclose(np.nan_to_num(x[f]), np.nan_to_num(y[f]), rtol=1e-9, atol=0)
    LS = ("ds", "asa", "sf", "zsa")
    try:
        ch = b.channel(*cfg, always_generate_lsp=c["always"])
        v = dict(ut_loc=0, bs_loc=0, ori=0, bori=0, vel=0, ind=0)
        los, upd, first, last = None, 0, None, None
        b.RNG.set(["table", 0], epoch=0)
        ch.set_topology(**args(v))
        names = [EV[i] for i in c["hist"]]
        seq = names + ["call", "call"]
        for k, ev in enumerate(seq, 1):
            tag = f"{seq[:k]} ({cfg[2]}, always={c['always']})"
            ctx.trans += 1
            if ev != "call":
                if ev in v:
                    v[ev] += 1
                if ev in ("losT", "losF"):
                    los = ev == "losT"
                b.RNG.set(["table", 0], epoch=k)
                update(ch, ev, v)
                if ev in REDRAW:
                    upd, first, last = k, None, None
                ctx.state(c["always"], v, los, upd, first)
                continue
            first = k if first is None else first
            got = call(ch, k)
            # the velocity must be visible even though LSPs stay
            want = fresh(v, los, upd, first, k)
            for f in LS:
                ctx.close(f"{f} after {tag} vs a fresh model replaying the last redraw", got[f], want[f], 1e-9)
            hh = np.nanmax(np.abs(want["h"]))
            ctx.close(f"h after {tag} vs a fresh model replaying the last redraw", np.nan_to_num(got["h"]), np.nan_to_num(want["h"]), 1e-8, 1e-10 * hh)
            ctx.close(f"delays after {tag}", np.nan_to_num(got["tau"]), np.nan_to_num(want["tau"]), 1e-9, 1e-18)
            if last is not None:
                for f in LS:
                    if c["always"]:
                        ctx.check(not same(got, last, f), f"always-generate: {f} not redrawn between two calls {tag}")
                    else:
                        ctx.check(same(got, last, f), f"{f} changed between two calls without a relevant update {tag}")
                for f in ("delays", "xpr"):
                    ctx.check(not same(got, last, f), f"fast fading ({f}) not redrawn between two calls {tag}")
            prev = mem.get(("prev", str(cfg)))
            last = got
            ctx.state(c["always"], v, los, upd, first)
            ctx.seen(np.round(np.log(got["ds"]), 5), k)
        ctx.traces += 1
        if not c["tail"]:
            return
        # a redraw must give new large-scale parameters
        b.RNG.set(["table", 0], epoch=50)
        v["ut_loc"] += 1
        update(ch, "ut_loc", v)
        g = call(ch, 51)
        for f in LS:
            ctx.check(not same(g, last, f), f"{f} not redrawn after a location update ({cfg[2]})")
        # orientation / velocity changes are visible in the next call although everything random is equal
        for ev in ("ori", "bori", "vel"):
            v[ev] += 1
            update(ch, ev, v)
            g2 = call(ch, 51)
            d = np.nan_to_num(g2["h"]) - np.nan_to_num(g["h"])
            m = np.nanmax(np.abs(g["h"]))
            if ev == "vel":
                ctx.check(np.abs(d[..., 1]).max() > 1e-6 * m, "velocity update not visible in the next call")
                ctx.close("velocity update changes the coefficient at time 0", d[..., 0] / m, 0 * d[..., 0], 0, 1e-9)
            else:
                ctx.check(np.abs(d).max() > 1e-6 * m, f"orientation update ({ev}) not visible in the next call")
            if not c["always"]:
                for f in LS:
                    ctx.check(same(g2, g, f), f"{f} changed by an update of {ev}")
            g = g2
    finally:
        cls.__call__ = orig

"""P23: rejection of unsupported configurations."""
import itertools
LEVEL = "model_checking"
RULE = ("construction: every carrier, elevation and direction of grids around all limits, every pair of array carriers, non-arrays, on 3 scenario and 3 channel classes and both precisions; "
        "topology: the two-state graph {nothing, complete} x all 64 subsets of the required items x optional items, each transition taken on the real object from both states, "
        "with all pairs (rejected subset, second subset) for the effect of rejected calls; non-trivial: distinct (configuration, verdict) pairs")
ASSUMPTIONS = ["a rejection is any exception raised by the call"]
FOK = [1.9e9, 1.9e9 + 1, 2e9, 2.5e9, 3.5e9, 4e9 - 1, 4e9, 19e9, 19e9 + 1, 20e9, 28e9, 30e9, 40e9 - 1, 40e9]
FBAD = [1.9e9 - 1, 1.8e9, 1e9, 0.7e9, 4e9 + 1, 4.1e9, 5e9, 6e9, 10e9, 18.9e9, 19e9 - 1, 40e9 + 1, 41e9, 60e9, 100e9, 2., 28.]
EOK = [10., 10.001, 11., 24.9, 45., 80., 89.999, 90., 10, 90, 37]
EBAD = [9.999, 9., 5., 0., -10., -45., 90.001, 91., 100., 180., 370., float("nan"), float("inf"), 9, 91]
DBAD = ["Uplink", "UL", "up", "both", "", None, 0, "downlink ", "DOWNLINK"]
ITEMS = ["ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "in_state"]


def cases(tier):
    for s, kind in itertools.product(("urb", "dur", "sur"), ("scenario", "channel")):
        for w in ("freq", "elev", "dir", "arrays"):
            yield dict(kind="create", scn=s, cls=kind, what=w)
        for i in range(8):
            yield dict(kind="topology", scn=s, cls=kind, part=i)
        if tier == "thorough" or (s, kind) in (("urb", "scenario"), ("sur", "channel")):
            for i in range(8):
                yield dict(kind="pairs", scn=s, cls=kind, part=i, step=1 if tier == "thorough" else 3)


def run_case(ctx, c):
    import numpy as np
    from .. import build as b
    from ..env import ntn, tf, RNG
    RNG.set(["table", 0])
    f = getattr(b, c["cls"])

    def expect(ok, what, g):
        ctx.run()
        try:
            g()
            err = None
        except Exception as e:
            err = e
        ctx.check((err is None) == ok, f"{what} is {'rejected: ' + repr(err)[:200] if ok else 'accepted'}", stop=False)
        ctx.seen(what, [ok])
        return err is None

    if c["kind"] == "create":
        for prec in ("single", "double"):
            tag = f"({c['scn']} {c['cls']} {prec})"
            if c["what"] == "freq":
                for ok, fs in ((True, FOK), (False, FBAD)):
                    for fc, e in itertools.product(fs, (10., 80.)):
                        ut = b.array(fc, precision=prec)
                        for d in ("uplink", "downlink"):
                            expect(ok, f"carrier {fc} Hz {d} {tag}", lambda: f(c["scn"], fc, d, e, ut, ut, prec))
            elif c["what"] == "elev":
                for fc in (2e9, 30e9):
                    ut = b.array(fc, precision=prec)
                    for ok, es in ((True, EOK), (False, EBAD)):
                        for e, d in itertools.product(es, ("uplink", "downlink")):
                            expect(ok, f"elevation {e!r} {fc} {d} {tag}", lambda: f(c["scn"], fc, d, e, ut, ut, prec))
            elif c["what"] == "dir":
                ut = b.array(2e9, precision=prec)
                for ok, ds in ((True, ["uplink", "downlink"]), (False, DBAD)):
                    for d in ds:
                        expect(ok, f"direction {d!r} {tag}", lambda: f(c["scn"], 2e9, d, 50., ut, ut, prec))
            else:
                A = {fc: b.array(fc, precision=prec) for fc in (1.9e9, 2e9, 2.001e9, 3.5e9, 20e9, 30e9)}
                for x, y, z, d in itertools.product(A, A, (2e9, 20e9), ("uplink", "downlink")):
                    expect(x == y == z, f"arrays for {x}, {y} at {z} {d} {tag}", lambda: f(c["scn"], z, d, 50., A[x], A[y], prec))
                el = ntn.AntennaElement("omni", precision=prec)
                pn = ntn.AntennaPanel(1, 1, "single", .5, .5, precision=prec)
                for bad in (el, pn, None, "array", 2e9):
                    kw = dict(carrier_frequency=2e9, direction="uplink", elevation_angle=50., precision=prec)
                    cl = getattr(ntn, b.SCN[c["scn"]][0 if c["cls"] == "channel" else 1])
                    expect(False, f"{type(bad).__name__} as terminal array {tag}", lambda: cl(ut_array=bad, bs_array=A[2e9], **kw))
                    expect(False, f"{type(bad).__name__} as satellite array {tag}", lambda: cl(ut_array=A[2e9], bs_array=bad, **kw))
        return
    t = b.tt(b.topo(2, 2, 2), "double")
    t2 = b.tt({k: (v if v.dtype == bool else v * 1.01 + .01) for k, v in b.topo(2, 2, 2).items()}, "double")
    EXTRA = [dict(), dict(los=True), dict(latitude=30.), dict(rain_rate=10., temperature=280.)]

    def sub(m, src):
        return {n: src[n] for i, n in enumerate(ITEMS) if m >> i & 1}
    new = lambda: f(c["scn"], 2e9, "downlink", 50., precision="double")
    if c["kind"] == "topology":
        done = new()
        done.set_topology(**t)
        for m in range(c["part"] * 8, c["part"] * 8 + 8):
            for x in EXTRA if c["cls"] == "scenario" else EXTRA[:2]:   # the channel models take no atmosphere
                what = f"topology with {sorted(sub(m, t))} {sorted(x)} ({c['scn']} {c['cls']})"
                s = new()
                expect(m == 63, "first " + what, lambda: s.set_topology(**sub(m, t), **x))
                ctx.trans += 1
                expect(True, "later " + what, lambda: done.set_topology(**sub(m, t2), **x))
                ctx.trans += 1
        ctx.state("nothing", [c["scn"], c["cls"]]); ctx.state("complete", [c["scn"], c["cls"]])
        ctx.traces += 1
    else:
        # a rejected first call gives nothing: the second one is judged as if it were the first; the complete one works afterwards
        for m in range(c["part"] * 8, c["part"] * 8 + 8):
            if m == 63:
                continue
            s = new()
            expect(False, f"first {m}", lambda: s.set_topology(**sub(m, t)))
            for m2 in sorted((({63 & ~m} - {63}) | set(range(m % c["step"], 63, c["step"])))):
                expect(False, f"topology with {sorted(sub(m2, t))} after a rejected one with {sorted(sub(m, t))} ({c['scn']} {c['cls']})", lambda: s.set_topology(**sub(m2, t)))
                ctx.trans += 1
            expect(True, f"complete topology after rejected ones ({c['scn']} {c['cls']})", lambda: s.set_topology(**t))
            ctx.state("nothing after rejection", [c["scn"], c["cls"], m])
            ctx.traces += 1

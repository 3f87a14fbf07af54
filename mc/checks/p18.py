"""P18: geometry and numbering of antenna arrays."""
import itertools
LEVEL = "exploration"
RULE = ("every panel array with rows, cols per panel in 1..4, panel rows, cols in 1..3, and large ones (up to 8 x 8 elements and 4 x 5 panels), 4 polarisations, 8 spacing settings, carriers and both precisions "
        "(thorough: 1..5, 1..4); every rejected combination of polarisation kinds and of panel against element spacing around the overlap limit; "
        "non-trivial: distinct position tensors")
ASSUMPTIONS = ["speed of light 299792458 m/s"]
POL = [("single", "V"), ("single", "H"), ("dual", "VH"), ("dual", "cross")]
SP = [dict(), dict(ev=.7), dict(eh=.3), dict(ev=.4, eh=.9), dict(pv=9.), dict(ph=7.5), dict(pv=8.25, ph=11.5, ev=.8, eh=1.1), dict(ev=2., eh=.25, pv=12.)]
FC = [2e9, 3.5e9, 20e9, 28.4e9]


def cases(tier):
    n = 4 if tier == "quick" else 5
    for r, c in itertools.product(range(1, n + 1), repeat=2):
        yield dict(rows=r, cols=c, n=n)
    for r, c in ((8, 8), (16, 1), (1, 32), (10, 3), (4, 12)):
        yield dict(rows=r, cols=c, n=2)
        yield dict(rows=r, cols=c, n=3)
    for r, c in ((1, 1), (2, 1), (2, 3)):
        yield dict(rows=r, cols=c, n=2, panels=((1, 9), (8, 1), (4, 5)))
    yield dict(reject=True)


def attrs(ctx, a, w, k, fc, tag):
    import numpy as np
    one = a.precision == "single"
    rt, at = (3e-6, 1e-7) if one else (1e-12, 1e-13)
    pos = a.ant_pos.numpy()
    ctx.check(pos.dtype == (np.float32 if one else np.float64), f"position type {pos.dtype} {tag}")
    ctx.close("element positions " + tag, pos, w.pos, rt, at)
    ctx.close("centre " + tag, pos.mean(0), np.zeros(3), 0, at * 10)
    P = k["pcol"] * k["prow"]
    for name, want in (("num_ant", w.n), ("num_panels", P), ("num_panels_ant", w.n // P), ("num_rows", k["prow"]), ("num_cols", k["pcol"]),
                       ("num_rows_per_panel", k["rows"]), ("num_cols_per_panel", k["cols"])):
        ctx.close(name + " " + tag, int(getattr(a, name)), want, 0, 0)
    ev, eh = k.get("ev", .5), k.get("eh", .5)
    for name, want in (("element_vertical_spacing", ev), ("element_horizontal_spacing", eh),
                       ("panel_vertical_spacing", k.get("pv", (k["rows"] - 1) * ev + .5)), ("panel_horizontal_spacing", k.get("ph", (k["cols"] - 1) * eh + .5))):
        ctx.close(name + " " + tag, float(getattr(a, name)), want, 1e-6, 0)
    ctx.check(a.polarization == k["pol"] and a.polarization_type == k["typ"], "polarisation " + tag)
    i1 = a.ant_ind_pol1.numpy()
    ctx.close("first polarisation indices " + tag, i1, np.flatnonzero(w.ind == 0), 0, 0)
    ctx.close("first polarisation positions " + tag, a.ant_pos_pol1.numpy(), w.pos[w.ind == 0], rt, at)
    if k["pol"] == "dual":
        i2 = a.ant_ind_pol2.numpy()
        ctx.close("second polarisation indices " + tag, i2, np.flatnonzero(w.ind == 1), 0, 0)
        ctx.close("second polarisation positions " + tag, a.ant_pos_pol2.numpy(), w.pos[w.ind == 1], rt, at)
        ctx.close("partition " + tag, np.sort(np.concatenate([i1, i2])), np.arange(w.n), 0, 0)
        ctx.close("co-located pairs " + tag, pos[i1], pos[i2], 0, 0)
    else:
        ctx.close("all elements in one polarisation " + tag, np.sort(i1), np.arange(w.n), 0, 0)
    els = [a.ant_pol1] + ([a.ant_pol2] if k["pol"] == "dual" else [])
    th, ph = np.array([1.5, .4]), np.array([.1, -.3])
    T = pos.dtype.type
    for q, (e, s) in enumerate(zip(els, w.sl)):
        ft, fp = e.field(T(1) * th.astype(T), ph.astype(T))
        ctx.close(f"slant of polarisation {q} {tag}", np.stack([ft, fp]), np.stack([np.cos(s) + 0 * th, np.sin(s) + 0 * th]), 1e-6, 1e-6)


def run_case(ctx, c):
    import numpy as np
    from .. import build as b, ref
    from ..env import ntn
    if c.get("reject"):
        return reject(ctx)
    m = c["n"] - 1
    for i, (pr, pc, (pol, typ), (si, sp)) in enumerate(((p, q, x, y) for p, q in c.get("panels", itertools.product(range(1, m + 1), repeat=2)) for x in POL for y in enumerate(SP))):
        k = dict(rows=c["rows"], cols=c["cols"], prow=pr, pcol=pc, pol=pol, typ=typ, **sp)
        fc, prec = FC[(i + si) % 4], ("single", "double")[(i + i // 8) % 2]
        tag = f"{k} {fc/1e9}GHz {prec}"
        bad = [sp[s] <= (n - 1) * sp.get(e, .5) for s, e, n in (("pv", "ev", c["rows"]), ("ph", "eh", c["cols"])) if s in sp]
        if any(bad):
            continue
        a, w = b.array(fc, precision=prec, **k), ref.Arr(fc, **k)
        attrs(ctx, a, w, k, fc, tag)
        ctx.run()
        ctx.seen(w.pos, [pol, typ])
        if pr == pc == 1 and not {"pv", "ph"} & set(sp):
            # the short forms are the same arrays
            x = ntn.AntennaArray(num_rows=c["rows"], num_cols=c["cols"], polarization=pol, polarization_type=typ, antenna_pattern="omni", carrier_frequency=fc,
                                 vertical_spacing=sp.get("ev"), horizontal_spacing=sp.get("eh"), precision=prec)
            attrs(ctx, x, w, k, fc, "AntennaArray " + tag)
            p = ntn.AntennaPanel(c["rows"], c["cols"], pol, sp.get("ev", .5), sp.get("eh", .5), precision=prec)
            ctx.close("panel positions in wavelengths " + tag, p.ant_pos.numpy(), w.pos * fc / ref.C0, 3e-6, 1e-6)
            ctx.close("panel size " + tag, [int(p.num_rows), int(p.num_cols)], [c["rows"], c["cols"]], 0, 0)
            ctx.close("panel spacing " + tag, [float(p.vertical_spacing), float(p.horizontal_spacing)], [sp.get("ev", .5), sp.get("eh", .5)], 1e-6, 0)
            ctx.run(2)
            if c["rows"] == c["cols"] == 1 and not sp:
                attrs(ctx, ntn.Antenna(polarization=pol, polarization_type=typ, antenna_pattern="omni", carrier_frequency=fc, precision=prec), w, k, fc, "Antenna " + tag)
                ctx.run()


def rejected(ctx, what, f):
    ctx.run()
    try:
        f()
    except Exception:
        return ctx.check(True, "")
    ctx.fail(what + " is accepted", stop=False)


def reject(ctx):
    from .. import build as b
    from ..env import ntn
    from . import p18
    ok = set(POL)
    for pol, typ in itertools.product(("single", "dual", "Single", "both", "cross", "", None), ("V", "H", "VH", "cross", "HV", "v", "", None)):
        if (pol, typ) in ok:
            b.array(2e9, 2, 2, pol, typ)
            ctx.run()
        else:
            rejected(ctx, f"polarisation {pol!r} of type {typ!r}", lambda: b.array(2e9, 2, 2, pol, typ))
        if pol not in ("single", "dual"):
            rejected(ctx, f"panel polarisation {pol!r}", lambda: ntn.AntennaPanel(2, 2, pol, .5, .5))
    for n, e, rel, ax in itertools.product(range(1, 6), (.25, .5, 1.), (-.5, -.125, 0., .125, .5), ("v", "h")):
        s = (n - 1) * e + rel                                            # exact in binary: (n-1)e is the panel's extent
        k = dict(rows=n, cols=1, prow=2, pcol=1, ev=e, pv=s) if ax == "v" else dict(rows=1, cols=n, prow=1, pcol=2, eh=e, ph=s)
        if rel > 0:
            b.array(2e9, **k)
            ctx.run()
        else:
            rejected(ctx, f"array with overlapping panels {k}", lambda: b.array(2e9, **k))

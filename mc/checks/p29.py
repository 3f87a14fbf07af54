"""P29: plots show what the model contains."""
import itertools
LEVEL = "exploration"
RULE = ("panel arrays: rows x columns x panels x polarisation x precision, every plotted element compared with the array; element patterns: all patterns, both principal cuts at every plotted angle; "
        "topologies: shapes x LoS patterns x directions x every batch example and satellite x scale of the scene, before and after updates; non-trivial: distinct plotted data")
ASSUMPTIONS = ["the data handed to matplotlib is what a user sees; colours, marker shapes and text placement beyond the element and terminal numbers are not judged",
               "LoS and NLoS groups are identified by their legend labels and the length unit by the axis labels; indoor terminals are not claimed to be drawn"]


def cases(tier):
    q = tier == "quick"
    for i, ((r, c), (pr, pc), pol, prec) in enumerate(itertools.product(((1, 1), (1, 3), (2, 3), (4, 1)), ((1, 1), (2, 1), (2, 3)), (("single", "V"), ("single", "H"), ("dual", "VH"), ("dual", "cross")), ("single", "double"))):
        if not q or i % 3 == 1:
            yield dict(kind="array", r=r, c=c, pr=pr, pc=pc, pol=list(pol), prec=prec, fc=(2e9, 28e9)[i % 2])
    for p, prec in itertools.product(("omni", "38.901", "aperture", "dlp"), ("single", "double")):
        yield dict(kind="pattern", pat=p, prec=prec)
    for i, (shp, d, s, far) in enumerate(itertools.product(((1, 1, 1), (2, 2, 3), (3, 1, 4), (1, 3, 2)), ("uplink", "downlink"), ("urb", "dur", "sur"), (False, True))):
        if not q or (i + i // 2) % 2:
            yield dict(kind="topology", shp=list(shp), dir=d, scn=s, far=far, k=i)


def points(ax, np):
    """marker groups of an axes: list of (label, [n, dim])"""
    out = []
    for l in ax.lines:
        d = np.stack([np.asarray(x, float) for x in (l.get_data_3d() if hasattr(l, "get_data_3d") else l.get_data())], -1)
        if l.get_linestyle() in ("None", "none", "", " "):
            out.append((l.get_label(), d))
    for s in ax.collections:
        o = getattr(s, "_offsets3d", None)
        if o is not None:
            out.append((s.get_label(), np.stack([np.asarray(np.ma.getdata(x), float) for x in o], -1)))
        elif hasattr(s, "get_offsets"):
            out.append((s.get_label(), np.asarray(s.get_offsets(), float)))
    return out


def run_case(ctx, c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import numpy as np
    plt.close("all")
    try:
        dict(array=array, pattern=pattern, topology=topology)[c["kind"]](ctx, c, np, plt)
    finally:
        plt.close("all")


def rows(x):
    return sorted(map(tuple, x))


def array(ctx, c, np, plt):
    from ..env import ntn
    a = ntn.PanelArray(c["r"], c["c"], *c["pol"], "omni", c["fc"], num_rows=c["pr"], num_cols=c["pc"], precision=c["prec"])
    a.show()
    ctx.run()
    tag = str(c)
    ctx.check(len(plt.get_fignums()) == 1, "one figure for an array " + tag)
    ax = plt.gcf().axes[0]
    pts = [p for _, p in points(ax, np)]
    P = [a.ant_pos_pol1.numpy()] + ([a.ant_pos_pol2.numpy()] if c["pol"][0] == "dual" else [])
    ctx.check(len(pts) == len(P), f"{len(pts)} groups of elements plotted {tag}")
    for p, w in zip(sorted(map(rows, pts)), sorted(rows(x[:, 1:]) for x in P)):
        ctx.check(len(p) == len(w), "number of plotted elements " + tag)
        ctx.close("plotted element positions " + tag, p, w, 1e-6, 1e-9)
    # every element of the first polarisation carries its number
    lab = {t.get_text(): np.array(t.xy if hasattr(t, "xy") else t.get_position(), float) for t in ax.texts}
    ind = a.ant_ind_pol1.numpy()
    ctx.check(sorted(lab) == sorted(str(i + 1) for i in ind), f"element numbers {sorted(lab)} {tag}")
    for j, i in enumerate(ind):
        ctx.close(f"position of the number {i + 1} {tag}", lab[str(i + 1)], P[0][j, 1:], 1e-6, 1e-9)
    ctx.seen(*pts)


def pattern(ctx, c, np, plt):
    from ..env import ntn, tf
    a = ntn.PanelArray(1, 1, "single", "V", c["pat"], 2e9, precision=c["prec"])
    a.show_element_radiation_pattern()
    ctx.run()
    R = tf.float32
    cuts = []
    for n in plt.get_fignums():
        for ax in plt.figure(n).axes:
            for l in ax.lines:
                cuts.append((ax.get_title(), np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)))
    for name in ("Vertical", "Horizontal"):
        m = [x for x in cuts if name in x[0]]
        ctx.check(len(m) == 1, f"{name} cut of {c}")
        an, db = m[0][1:]
        ctx.check(len(an) >= 181 and np.isclose(np.ptp(an), np.pi if name == "Vertical" else 2 * np.pi), f"range of the {name} cut of {c}")
        th, ph = (an, 0 * an) if name == "Vertical" else (0 * an + np.pi / 2, an)
        # the documented power gain, from the field the element reports
        f = a.ant_pol1.field(tf.constant(th, a.rdtype), tf.constant(ph, a.rdtype))
        g = np.abs(f[0].numpy().astype(float)) ** 2 + np.abs(f[1].numpy().astype(float)) ** 2
        lin = 10 ** (db / 10)
        ctx.close(f"{name} cut of the pattern {c}", lin, g, 1e-3, 1e-3 * g.max())
        ctx.seen(np.round(lin, 4))


def topology(ctx, c, np, plt):
    from .. import build as b
    from ..env import ntn, RNG
    B, N, U = c["shp"]
    t = b.topo(B, N, U)
    if not c["far"]:           # terminals close to the origin, at positive and negative coordinates
        t["ut_loc"] = t["ut_loc"] * 0 + np.stack(np.broadcast_arrays(300. * (np.arange(U) + 1) * (-1) ** np.arange(U), -170. * np.arange(B)[:, None] - 40 * np.arange(U), 1.5 + np.arange(U)), -1)
    else:
        t["ut_loc"] = t["ut_loc"] + [-3e4, 2e4, 0.]
    t["in_state"] = t["in_state"] & False
    ch = b.channel(c["scn"], 2e9, c["dir"], 40.)
    for step in range(2):
        los = np.array([[[(x * 5 + n * 3 + u * (n + 1) + c["k"] + step) % 3 != 0 for u in range(U)] for n in range(N)] for x in range(B)])
        RNG.set(b.losdraw(los))
        if step:                 # moved: the plot follows the update
            t["ut_loc"] = t["ut_loc"] * [-1., .5, 1.] + [11., 7., .25]
            t["ut_orientations"] = t["ut_orientations"] + .3
            ch.set_topology(**{k: v for k, v in b.tt(t).items() if k in ("ut_loc", "ut_orientations")})
        else:
            ch.set_topology(**b.tt(t))
        L = ch._scenario.los.numpy()
        for x, n in itertools.product(range(B), range(N)):
            plt.close("all")
            if (x, n) == (0, 0) and step:
                ch.show_topology()
            elif n == 0:
                ch.show_topology(batch_index=x)
            else:
                ch.show_topology(n, x)
            ctx.run()
            tag = f"{c} example {x} satellite {n} step {step}"
            ax = [a for f in plt.get_fignums() for a in plt.figure(f).axes if hasattr(a, "get_zlabel")][0]
            unit = [1000. if "[km]" in s else 1. for s in (ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel())]
            ul, bl = t["ut_loc"][x], t["bs_loc"][x]
            g = {}
            for lb, p in points(ax, np):
                g.setdefault(lb, []).extend((p * unit).tolist())
            for lb, w in (("UT LoS", ul[L[x, n]]), ("UT NLoS", ul[~L[x, n]]), ("BS", bl)):
                got = np.array(g.get(lb, [])).reshape(-1, 3)
                ctx.check(len(got) == len(w), f"{len(got)} instead of {len(w)} marks '{lb}' {tag}")
                if len(w):
                    ctx.close(f"positions of '{lb}' {tag}", np.array(rows(got)), np.array(rows(w)), 2e-6, 1e-2)
            # numbers and axes of the local coordinate systems
            txt = [(s.get_text(), np.array(s.get_position_3d() if hasattr(s, "get_position_3d") else [s._x, s._y, s._z], float) * unit) for s in ax.texts]
            seg = [(l.get_color(), np.stack([np.asarray(v, float) for v in l.get_data_3d()], -1)) for l in ax.lines if len(l.get_data_3d()[0]) == 2]
            from .. import ref
            spread = np.ptp(np.concatenate([ul, bl]), axis=0)
            for loc, ort, what in ((ul, t["ut_orientations"][x], "terminal"), (bl, t["bs_orientations"][x], "satellite")):
                for i, p in enumerate(loc):
                    ctx.check(any(s == str(i) and np.allclose(q, p, rtol=2e-6, atol=1e-2) for s, q in txt), f"number of {what} {i} {tag}: {txt[:4]}")
                    if (spread < 1e-3).any():
                        continue
                    M = ref.rotm(ort[i])
                    for col, axis in zip("rgb", range(3)):
                        s = [q for k, q in seg if k == col and np.allclose(q[0] * unit, p, rtol=2e-6, atol=1e-2)]
                        ok = False
                        for q in s:
                            v = q[1] - q[0]
                            # the arrow is short against its start: single-precision positions
                            ok |= np.linalg.norm(np.cross(v / np.linalg.norm(v), M[:, axis])) < 2e-3 and v @ M[:, axis] > 0
                        ctx.check(ok, f"axis {col} of {what} {i} {tag}: {[(q[1] - q[0]).tolist() for q in s]} instead of direction {M[:, axis].tolist()}")
            ctx.seen(*[np.round(np.array(v), 3) for v in g.values() if v], [x, n])

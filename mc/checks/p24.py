"""P24: eager, compiled graph and XLA execution, both precisions."""
import itertools
LEVEL = "exploration"
RULE = ("model configurations (scenario x direction x band x arrays x always-generate x switches) x precision, each driven through a history that visits every ordered pair of {eager topology, eager "
        "partial update, eager call, graph call, XLA call, graph topology+call with new values / new shape / new length, XLA topology+call, generated topology in graph and XLA}, and histories of a new model that start with a traced call or topology; the same for the tapped-delay-line models; every result is compared "
        "with a fresh eager model under the same draws; eager runs of all configurations in both precisions compared with each other; small equidistant changes of every continuous input in double precision: "
        "second differences of the answers; types of every public tensor; non-trivial: distinct results")
ASSUMPTIONS = ["a traced call refers to the topology at trace time; topologies that change between calls are passed as arguments of the traced function",
               "in single precision the phase of a line-of-sight path of hundreds of kilometres is not representable: the direct path is compared by magnitude bounds there",
               "draws are equal in all modes by the controlled random source"]
CFG = [("urb", "uplink", 2e9, False, {}), ("sur", "downlink", 20e9, False, {}), ("dur", "downlink", 2.5e9, True, {}), ("urb", "downlink", 28e9, True, {}),
       ("dur", "uplink", 20e9, False, dict(enable_pathloss=False)), ("sur", "uplink", 3e9, False, dict(enable_shadow_fading=False)),
       ("sur", "downlink", 2e9, False, dict(doppler_enabled=False)), ("dur", "uplink", 30e9, True, dict(enable_pathloss=False, enable_shadow_fading=False))]
EL = [40., 60., 20., 80., 50., 70., 90., 33.]


def cases(tier):
    n = 0
    for i in range(len(CFG)):
        for prec in (("single", "double") if tier == "thorough" else (("single", "double")[i % 2],)):
            # the traced steps dominate the cost: two light cases instead of a heavy one
            for part in ("graph", "xla", "first"):
                if tier == "quick" and i not in dict(graph=(0, 1, 2, 3), xla=(0, 1, 5), first=(0, 1))[part]:
                    continue
                yield dict(kind="modes", cfg=i, prec=prec, part=part)
    for i, (m, prec) in enumerate(itertools.product(("A", "B", "C", "D", "A30", "B100", "C300"), ("single", "double"))):
        if tier == "thorough" or i % 3 == 0:
            yield dict(kind="line", model=m, prec=prec, k=i)
    for i, v in itertools.product(range(len(CFG)), VARY):
        if tier == "thorough" or i < 4:
            yield dict(kind="accuracy", cfg=i, vary=v)
    for i, e in itertools.product(range(len(CFG)), range(10, 91, 10)):
        yield dict(kind="stages", cfg=i, elev=float(e))
    for i, e in itertools.product(range(len(CFG)), EL if tier == "thorough" else EL[::3] + [20.]):
        yield dict(kind="precision", cfg=i, elev=e)


def model(b, i, prec, elev):
    scn, d, fc, dual, sw = CFG[i]
    ut = b.array(fc, 1, 2, "dual" if dual else "single", "cross" if dual else "V", "omni", prec)
    bs = b.array(fc, 2, 1, "single", "H", "38.901", prec)
    return b.channel(scn, fc, d, elev, ut, bs, prec, **sw)


def run_case(ctx, c):
    return dict(modes=modes, line=line, precision=precision, accuracy=accuracy, stages=stages)[c["kind"]](ctx, c)


def stages(ctx, c):
    """double precision: parameters, geometry and large-scale parameters carry more than single-precision digits"""
    import numpy as np
    from .. import build as b, ref
    scn, d, fc = CFG[c["cfg"]][:3]
    t = b.topo(2, 2, 3)
    los = (np.arange(12).reshape(2, 2, 3) + c["cfg"] + int(c["elev"] / 10)) % 3 > 0
    tab, g = ref.Tab(scn, fc, d, c["elev"]), b.geo(c["elev"], t)
    sc = b.scenario(scn, fc, d, c["elev"], precision="double", enable_shadow_fading=False)
    b.RNG.set(b.losdraw(los))
    sc.set_topology(**b.tt(t))
    los = sc.los.numpy()
    ctx.run()
    tag = f"{CFG[c['cfg']][:3]} {c['elev']}deg double"
    for n in sorted({k.rsplit("_", 1)[0] for k in tab.l if k in tab.n and k.endswith(f"_{tab.a}")} | {"CPhiNLoS", "CThetaNLoS"}):
        ctx.close(f"parameter {n} {tag}", sc.get_param(n).numpy(), tab.link(n, los), 1e-12, 1e-15)
    ctx.close("log-mean of the LSPs " + tag, sc.lsp_log_mean.numpy(), ref.mu(tab, los), 1e-11, 1e-11)
    ctx.close("log-deviation of the LSPs " + tag, sc.lsp_log_std.numpy(), ref.sigma(tab, los), 1e-11, 1e-11)
    ctx.close("distance " + tag, sc.distance_3d.numpy(), g.d3, 1e-11, 0)
    ctx.close("path loss " + tag, sc.free_space_pathloss.numpy(), ref.fspl(fc, g.d3), 1e-11, 0)
    ctx.seen([c["cfg"], c["elev"]])


VARY = ["height", "ut_xy", "ut_orientations", "bs_orientations", "ut_velocities", "sampling"]


def accuracy(ctx, c):
    """double precision: the answer to four equally spaced, nearly equal inputs is a straight line (an intermediate value of
    single precision makes it a staircase)"""
    import numpy as np
    from .. import build as b
    from ..env import RNG
    i, v = c["cfg"], c["vary"]
    t = b.topo(2, 2, 2)
    change = {}
    for step in (1e-7, 1e-9, 1e-10):
        out = []
        for k in range(4):
            x, f, fs = {n: a.copy() for n, a in t.items()}, 1 + step * k, 1e6
            if v == "height":
                x["bs_loc"][..., 2] *= f
            elif v == "ut_xy":
                x["ut_loc"][..., :2] *= f
            elif v == "sampling":
                fs *= f
            else:
                x[v] = x[v] * f
            RNG.set(["table", 0])
            m = model(b, i, "double", EL[i])
            m.set_topology(**b.tt(x))
            h, tau = m(3, fs)
            ctx.run()
            out.append((h.numpy(), tau.numpy()))
        h, tau = (np.stack(x) for x in zip(*out))
        sc = np.abs(h[0]).max(axis=(2, 4, 5, 6), keepdims=True)
        h = h / np.where(sc > 0, sc, 1)
        tag = f"for steps of {step} of {v} {CFG[i][:4]} elev={EL[i]} double"
        for n, a, tol in (("coefficients of the first path", h[..., :1, :], 2e-5), ("coefficients", h[..., 1:, :], 1e-9), ("delays", tau[:, None, ..., None] / tau.max(), 1e-9)):
            if tol == 2e-5 and step > 1e-10 and v in ("height", "ut_xy"):
                continue                     # phase of a direct path of hundreds of kilometres: turns within a step
            d1, d2 = np.abs(np.diff(a, axis=0)), np.abs(np.diff(a, 2, axis=0))
            ctx.check((d2 <= (.3 if tol == 2e-5 else .1) * d1.max(0) + tol).all(), f"{n} are not smooth: largest second difference {d2.max()}, first difference {d1.max()} {tag}")
        change[step] = np.abs(np.diff(h, axis=0)).max(axis=(0, 3, 5, 6, 7))
        ctx.seen(np.round(h[0], 6), [step])
    # a change that shows over a large step starts within the smallest one
    for x in np.ndindex(change[1e-7].shape):
        ctx.check(change[1e-7][x] <= 5000 * change[1e-10][x] + 1e-4, f"link {x} answers {change[1e-7][x]} to a relative change of 1e-7 of {v} but {change[1e-10][x]} to 1e-10 {CFG[i][:4]} elev={EL[i]} double")


def rel(ctx, name, a, w, tol):
    import numpy as np
    for n, x, y in zip(("coefficients", "delays"), a, w):
        x, y = x.numpy(), y.numpy()
        ctx.check(x.dtype == y.dtype, f"{n} type {x.dtype}, expected {y.dtype} {name}")
        ctx.check(np.isfinite(x).all(), f"{n} are not finite {name}")
        m = max(np.abs(y).max(), 1e-300)
        if x.dtype == np.complex64 and x.shape == y.shape:
            # direct path of hundreds of kilometres: phase not representable, only its size is compared
            ctx.check(np.abs(x[..., 0, :]).max() < 3 * m, f"first path {np.abs(x[..., 0, :]).max()} against {m} {name}")
            x, y = x[..., 1:, :], y[..., 1:, :]
            m = max(np.abs(y).max(), 1e-300)
        ctx.close(f"{n} {name}", x / m, y / m, 0, tol)


def modes(ctx, c):
    import numpy as np
    from .. import build as b
    from ..env import tf, ntnu, RNG
    i, prec = c["cfg"], c["prec"]
    scn, d, fc, dual, sw = CFG[i]
    elev = EL[i]
    tol = 1e-6 if prec == "double" else 2e-3
    xla = c["part"] == "xla"
    topos = [b.topo(2, 1, 2), b.topo(2, 1, 2), b.topo(1, 2, 3)]
    topos[0]["bs_loc"][:, :, 2] = 650e3
    topos[1] = {k: (v if v.dtype == bool else v * 1.03 - .2) for k, v in topos[1].items()}
    topos[1]["bs_loc"][:, :, 2] = 550e3
    ORDER = ["ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "in_state"]
    TT = [[b.tt(t, prec)[k] for k in ORDER] for t in topos]
    tag0 = f"{CFG[i][:4]} {sw} elev={elev} {prec}"
    memo = {}

    def ref(ti, e1, part, e2, T):
        k = (ti, e1, part, e2, T)
        if k not in memo:
            m = model(b, i, prec, elev)
            if ti == "gen":
                RNG.set(["table", 0], epoch=e1)
                m.set_topology(*gen())
            else:
                RNG.set(["table", 0], epoch=e1)
                m.set_topology(*TT[ti])
            for (pi, ei) in part:
                RNG.set(["table", 0], epoch=ei)
                m.set_topology(**upd(pi))
            RNG.set(["table", 0], epoch=e2)
            memo[k] = m(T, 1e6)
            ctx.run()
        return memo[k]

    def gen():
        return ntnu.gen_single_sector_topology(2, 3, scn, bs_height=600e3, elevation_angle=elev, max_ut_velocity=5., precision=prec)

    def upd(p):
        t = TT[1]
        return {"vel": dict(ut_velocities=t[4] * 2), "loc": dict(ut_loc=t[0] + 30), "ori": dict(ut_orientations=t[2])}[p]
    st = dict(ti=None, e1=0, part=())
    ep = [0]
    fns = {}

    def step(name, *a):
        ep[0] += 1
        e = ep[0]
        ctx.run()
        RNG.set(["table", 0], epoch=e)
        if name == "full":
            m.set_topology(*TT[a[0]])
            st.update(ti=a[0], e1=e, part=())
            return
        if name == "part":
            m.set_topology(**upd(a[0]))
            st["part"] += ((a[0], e),)
            return
        if name == "call":
            r, w = m(a[0], 1e6), ref(st["ti"], st["e1"], st["part"], e, a[0])
        elif name == "gcall":             # traced now, called twice: the draws are those of the trace
            f = tf.function(lambda T: m(T, 1e6), jit_compile=xla)
            r = f(a[0])
            w = ref(st["ti"], st["e1"], st["part"], e, a[0])
            rel(ctx, f"of the second run of a traced call {tag0} after {hist}", f(a[0]), w, tol)
            if len(a) > 1:                # retraced for another length
                rel(ctx, f"of a retraced call {tag0} after {hist}", f(a[1]), ref(st["ti"], st["e1"], st["part"], e, a[1]), tol)
        else:
            # topology and call in one function; draws at trace time (epoch of the first use)
            kind, ti = name, a[0]
            if kind not in fns:
                def body(*t):
                    m.set_topology(*(gen() if kind == "ggen" else t))
                    return m(3, 1e6)
                fns[kind] = (tf.function(body, jit_compile=xla), {})
            f, eps = fns[kind]
            sh = "gen" if ti == "gen" else topos[ti]["ut_loc"].shape
            e = eps.setdefault(sh, e)     # a retrace happens for a new shape
            RNG.set(["table", 0], epoch=e)
            r = f(*([] if ti == "gen" else TT[ti]))
            w = ref(ti, e, (), e, 3)
            st["ti"] = None
        rel(ctx, f"of step {name}{a} {tag0} {'XLA' if xla else 'graph'} after {hist}", r, w, tol)
        ctx.seen(np.round(r[0].numpy() / np.abs(r[0].numpy()).max(), 4), [name])
    seq = [("full", 0), ("call", 3), ("gcall", 3), ("call", 3), ("part", "vel"), ("call", 2), ("part", "loc"), ("call", 3), ("gfull", 0), ("gfull", 1), ("gfull", 0), ("full", 1),
           ("call", 3), ("call", 3), ("part", "ori"), ("full", 0), ("part", "loc"), ("part", "vel"), ("call", 1)]
    if c.get("deep") or ctx.tier == "thorough":
        seq += [("gcall", 2, 4), ("call", 2), ("ggen", "gen"), ("full", 2), ("call", 3), ("gfull", 2), ("gfull", 0), ("full", 1), ("gcall", 1), ("call", 2)]
    elif i % 2:
        seq += [("ggen", "gen"), ("full", 2), ("call", 3)]
    seqs = [seq]
    if c["part"] == "first":              # the first call of a model is a traced one
        seqs = [[("full", 0), ("gcall", 2), ("call", 2), ("gcall", 2), ("full", 1), ("call", 3)], [("gfull", 0), ("full", 1), ("call", 3), ("gcall", 1), ("gfull", 1)]]
        if ctx.tier == "thorough":
            seqs += [[("ggen", "gen"), ("full", 0), ("call", 2), ("ggen", "gen")], [("full", 2), ("part", "vel"), ("gcall", 2, 4), ("call", 2), ("gfull", 0), ("full", 0), ("call", 1)]][:1 + (i % 2 == 0)]
    for seq in seqs:
        m = model(b, i, prec, elev)
        st.update(ti=None, e1=0, part=())
        fns.clear()
        hist = []
        for s in seq:
            step(*s)
            hist.append("".join(map(str, s)))


def line(ctx, c):
    """tapped delay lines: histories of eager and compiled calls and of changed delay spreads, starting with either"""
    import numpy as np
    from .. import build as b
    from ..env import tf, RNG
    prec = c["prec"]
    cor = np.array([[1, .3 - .2j], [.3 + .2j, 1]])

    def new(ds=1e-7):
        return b.ntn.TDL(c["model"], ds, 2e9, min_speed=3., max_speed=30., num_rx_ant=2, num_tx_ant=2, precision=prec, **(dict(rx_corr_mat=cor) if c["k"] % 2 else {}))
    e = 0
    for seq in (("graph", "eager", "ds", "eager", "graph"), ("eager", "graph", "eager"), ("xla", "eager", "ds", "graph", "eager")):
        m, ds, done = new(), 1e-7, []
        for s in seq:
            e += 1
            done.append(s)
            if s == "ds":
                if len(c["model"]) == 1:
                    m.delay_spread = ds = 3e-7
                continue
            RNG.set(["table", 0], epoch=e)
            f = lambda: m(3, 4, 1e5)
            r = (f if s == "eager" else tf.function(f, jit_compile=s == "xla"))()
            RNG.set(["table", 0], epoch=e)
            w = new(ds)(3, 4, 1e5)
            ctx.run(2)
            name = f"TDL-{c['model']} {prec} after {done}"
            for n, x, y in zip(("coefficients", "delays"), r, w):
                x, y = x.numpy(), y.numpy()
                ctx.check(x.dtype == y.dtype and x.shape == y.shape, f"{n} {x.dtype} {x.shape}, expected {y.dtype} {y.shape} {name}")
                ctx.check(np.abs(x - y).max() <= (1e-4 if prec == "single" else 1e-9) * np.abs(y).max(), lambda: f"{n} of {name} differ by {np.abs(x - y).max()} of {np.abs(y).max()}")
            ctx.seen(np.round(r[0].numpy(), 4))


FLOATS = ["carrier_frequency", "lambda_0", "h_ut", "h_bs", "ut_loc", "bs_loc", "ut_orientations", "bs_orientations", "ut_velocities", "distance_2d", "distance_2d_in", "distance_2d_out", "distance_3d",
          "distance_3d_in", "distance_3d_out", "matrix_ut_distance_2d", "los_aod", "los_aoa", "los_zod", "los_zoa", "lsp_log_mean", "lsp_log_std", "zod_offset", "basic_pathloss", "gas_pathloss",
          "scintillation_pathloss", "entry_pathloss", "free_space_pathloss", "los_probability"]


def precision(ctx, c):
    import numpy as np
    from .. import build as b
    from ..env import tf, RNG
    i, e = c["cfg"], c["elev"]
    tag = f"{CFG[i]} elev={e}"
    for pol, (B, N, U) in ((["table", 0], (2, 2, 2)), (["table", 1], (1, 1, 4)), (["table", 2], (3, 2, 1))):
        out = {}
        t = b.topo(B, N, U)
        for prec in ("single", "double"):
            T, CT = (tf.float32, tf.complex64) if prec == "single" else (tf.float64, tf.complex128)
            m = model(b, i, prec, e)
            RNG.set(pol)
            m.set_topology(**b.tt(t, prec))
            h, tau = m(3, 1e6)
            ctx.run()
            s = m._scenario if hasattr(m, "_scenario") else None
            ctx.check(h.dtype == CT and tau.dtype == T, f"types {h.dtype}, {tau.dtype} for precision {prec} {tag}")
            sc = b.scenario(CFG[i][0], CFG[i][2], CFG[i][1], e, precision=prec)
            RNG.set(pol)
            sc.set_topology(**b.tt(t, prec))
            val = {}
            for n in FLOATS:
                x = getattr(sc, n)
                ctx.check(x.dtype == T, f"{n} has type {x.dtype} for precision {prec} {tag}", stop=False)
                val[n] = x.numpy().astype(float)
            out[prec] = (h.numpy().astype(complex), tau.numpy().astype(float), val, sc.los.numpy())
        (h1, t1, v1, l1), (h2, t2, v2, l2) = out["single"], out["double"]
        ctx.close("LoS states of the precisions " + tag, l1, l2, 0, 0)
        for n in FLOATS:
            rt, at = (1e-4, 1e-3)
            if n in ("los_aod", "los_aoa", "los_zod", "los_zoa"):
                ctx.close(f"{n} of the precisions {tag}", np.exp(1j * np.radians(v1[n])), np.exp(1j * np.radians(v2[n])), 0, 1e-4)
            else:
                ctx.close(f"{n} of the precisions {tag}", v1[n], v2[n], rt, at)
        ctx.close("delays of the precisions " + tag, t1, t2, 1e-3, 1e-12)
        # all but the first path: complex agreement.  First path: the LoS phase is not representable in single precision
        up = CFG[i][1] == "uplink"
        scale = np.abs(h2).max(axis=(2, 4, 5, 6), keepdims=True)
        sc1 = np.where(scale > 0, scale, 1)
        ctx.close("scattered paths of the precisions " + tag, (h1 / sc1)[..., 1:, :], (h2 / sc1)[..., 1:, :], 0, 5e-3)
        for b_, n_, u_ in np.ndindex(B, N, U):
            x = (b_, slice(None)) and ((b_, n_, slice(None), u_) if up else (b_, u_, slice(None), n_))
            a, w = h1[x], h2[x]
            if not l2[b_, n_, u_]:
                ctx.close("first path of the precisions " + tag, a[:, :, 0] / sc1.max(), w[:, :, 0] / sc1.max(), 0, 5e-3)
            else:
                ctx.check((np.abs(a[:, :, 0]) < 20 * np.abs(w).max()).all(), f"first path of a LoS link {np.abs(a[:, :, 0]).max()} against {np.abs(w[:, :, 0]).max()} {tag}")
        ctx.seen(np.round(h2 / sc1, 4))

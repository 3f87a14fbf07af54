"""P27: the models inside the framework's transmission chain."""
import itertools
LEVEL = "exploration"
RULE = ("scenario class x band x direction x (batch, satellites, terminals) x array pair x FFT size x OFDM symbols x normalisation x eager/graph/XLA x precision for OFDM; the same with lag ranges for the "
        "time domain; tapped-delay-line models with and without correlation; generated topologies; a second topology after tracing; every received sample is compared with the sum over the model's own impulse "
        "response under the same draws; non-trivial: distinct received signals")
ASSUMPTIONS = ["the framework's blocks (Sionna) pass batch size, number of time steps and sampling frequency positionally",
               "no delay is an exact multiple of the sampling time (XLA computes sin(x)/x as 0/0 there in the framework's own conversion)",
               "the impulse response of the model itself is decided by P12 to P16 and P26"]
ARR = [(dict(), dict(pol="dual", typ="cross", rows=1, cols=2)), (dict(pol="dual", typ="VH"), dict(rows=3, cols=1, pat="38.901")), (dict(rows=2, cols=1, typ="H"), dict())]
SHP = [(1, 1, 1), (2, 1, 3), (2, 2, 1), (3, 2, 2), (1, 3, 2)]


def cases(tier):
    n = 0
    for s, (f, d), k in itertools.product(("urb", "dur", "sur"), ((2e9, "uplink"), (2e9, "downlink"), (28e9, "uplink"), (20e9, "downlink")), range(2 if tier == "quick" else 5)):
        n += 1
        yield dict(kind="sys", scn=s, fc=f, dir=d, elev=(10., 50., 80., 90.)[n % 4], shp=SHP[(n + k) % 5], arr=(n + n // 3 + k) % 3, k=n)
    for m in ("A", "B", "C", "D", "A30", "B100", "C300"):
        yield dict(kind="tdl", model=m)


def signal(np, rs, shape):
    return (rs.randn(*shape) + 1j * rs.randn(*shape)) / np.sqrt(2)


def freq(np, a, tau, F, df, norm):
    """[B, rx, ra, tx, ta, T, F]"""
    f = (np.arange(F) - F // 2) * df
    e = np.exp(-2j * np.pi * tau[..., None] * f)                    # [B, rx, tx, P, F]
    h = np.einsum("brmtnps,brtpf->brmtnsf", a, e)
    if norm:
        h = h / np.sqrt((np.abs(h) ** 2).mean((2, 4, 5, 6), keepdims=True))
    return h


def taps(np, a, tau, bw, l0, l1, norm):
    g = np.sinc(np.arange(l0, l1 + 1) - bw * tau[..., None])        # [B, rx, tx, P, L]
    h = np.einsum("brmtnps,brtpl->brmtnsl", a, g)
    if norm:
        h = h / np.sqrt((np.abs(h) ** 2).sum(-1, keepdims=True).mean((2, 4, 5), keepdims=True))
    return h


def run_case(ctx, c):
    import numpy as np
    from .. import build as b
    from ..env import tf, ntn, ntnu, RNG
    from sionna.phy.channel import OFDMChannel, TimeChannel
    from sionna.phy.ofdm import ResourceGrid
    if c["kind"] == "sys":
        B, N, U = c["shp"]
        up = c["dir"] == "uplink"
        ua, ba = ARR[c["arr"]]

        def make(prec):
            m = b.channel(c["scn"], c["fc"], c["dir"], c["elev"], ut=b.array(c["fc"], precision=prec, **ua), bs=b.array(c["fc"], precision=prec, **ba), precision=prec,
                          enable_pathloss=c["k"] % 2 == 1, enable_shadow_fading=c["k"] % 3 == 0)
            return m, int(m._scenario.ut_array.num_ant) if hasattr(m, "_scenario") else None

        def top(m, prec, q):
            RNG.set(["table", c["k"] + 3 * q])
            if q == 2 and N == 1:
                m.set_topology(*ntnu.gen_single_sector_topology(B, U, c["scn"], elevation_angle=c["elev"], isd=3000., max_ut_velocity=20., precision=prec))
            else:
                t = b.topo(B, N, U)
                if q == 1:
                    t["ut_loc"][..., 0] += 5e4
                    t["ut_velocities"] *= -2
                m.set_topology(**b.tt(t, prec), **(dict(los=bool(c["k"] % 2)) if q == 2 else {}))
        ntx = (U, N)[not up]
        nant = {"u": b.array(c["fc"], **ua).num_ant.numpy(), "b": b.array(c["fc"], **ba).num_ant.numpy()}
        nta = nant["u" if up else "b"]
        precs = ("double", "single")
    else:
        B, ntx = 3, 1
        nta = 2

        def make(prec):
            kw = [dict(), dict(rx_corr_mat=np.array([[1, .3 - .2j], [.3 + .2j, 1]]), tx_corr_mat=np.array([[1, .5j], [-.5j, 1]]))][c["model"] in "BD"]
            return ntn.TDL(c["model"], 100e-9, 2e9, min_speed=3., max_speed=30., num_rx_ant=2, num_tx_ant=2, precision=prec, **kw), None

        def top(m, prec, q):
            RNG.set(["table", 3 * q])
        precs = ("double", "single")
    rs = np.random.RandomState(c.get("k", 1))
    for prec in precs:
        cd = np.complex64 if prec == "single" else np.complex128
        tol = 2e-3 if prec == "single" else 1e-6
        for j, (F, S, cp, df) in enumerate(((8, 2, 2, 15e3), (13, 3, 0, 120e3))):
            rg = ResourceGrid(num_ofdm_symbols=S, fft_size=F, subcarrier_spacing=df, num_tx=ntx, num_streams_per_tx=1, cyclic_prefix_length=cp, precision=prec)
            Ts = (F + cp) / F / df
            for norm in (False, True):
                m, _ = make(prec)
                blk = OFDMChannel(m, rg, normalize_channel=norm, return_channel=True, precision=prec)
                mode = pick(ctx, c, prec, 2 * j + norm)
                if mode is None:
                    continue
                fn = blk if mode == "eager" else tf.function(blk, jit_compile=mode == "xla")
                x = signal(np, rs, (B, ntx, nta, S, F)).astype(cd)
                for q in ((0, 1, 2) if mode == "eager" else (0,)):
                    tag = f"{c} {prec} F={F} symbols={S} normalize={norm} {mode} topology {q}"
                    top(m, prec, q)
                    a, tau = response(tf, m, mode, prec, B, S, 1 / Ts)
                    top(m, prec, q)
                    y, h = fn(tf.constant(x))
                    y, h, a, tau = y.numpy(), h.numpy(), a.numpy().astype(complex), tau.numpy().astype(float)
                    ctx.run(2)
                    ctx.check(y.dtype == cd and h.dtype == cd, f"types {y.dtype}, {h.dtype} {tag}")
                    w = freq(np, a, tau, F, df, norm) if mode != "xla" or prec == "double" else h.astype(complex)
                    judge(ctx, np, "frequency response", h, w, tol, tag)
                    judge(ctx, np, "received grid", y, np.einsum("brmtnsf,btnsf->brmsf", w, x), tol, tag)
                    ctx.seen(np.round(y / np.abs(y).max(), 3))
        for j, (bw, n, l0, l1) in enumerate(((1e6, 12, -6, 20), (5.1e6, 9, -2, 5))):
            for norm in (False, True):
                m, _ = make(prec)
                blk = TimeChannel(m, bw, n, l_min=l0, l_max=l1, normalize_channel=norm, return_channel=True, precision=prec)
                mode = pick(ctx, c, prec, 6 + 2 * j + norm)
                if mode is None:
                    continue
                fn = blk if mode == "eager" else tf.function(blk, jit_compile=mode == "xla")
                x = signal(np, rs, (B, ntx, nta, n)).astype(cd)
                q = j
                tag = f"{c} {prec} time domain bandwidth={bw} samples={n} lags {l0}..{l1} normalize={norm} {mode}"
                L = l1 - l0 + 1
                top(m, prec, q)
                a, tau = response(tf, m, mode, prec, B, n + L - 1, bw)
                top(m, prec, q)
                y, h = fn(tf.constant(x))
                y, h, a, tau = y.numpy(), h.numpy(), a.numpy().astype(complex), tau.numpy().astype(float)
                ctx.run(2)
                ctx.check(y.dtype == cd and h.dtype == cd, f"types {y.dtype}, {h.dtype} {tag}")
                w = taps(np, a, tau, bw, l0, l1, norm) if mode != "xla" or prec == "double" else h.astype(complex)
                judge(ctx, np, "taps", h, w, tol, tag)
                wy = np.zeros(y.shape, complex)
                for t, k in itertools.product(range(n + L - 1), range(L)):
                    if 0 <= t - k < n:
                        wy[..., t] += np.einsum("brmtn,btn->brm", w[..., t, k], x[..., t - k])
                judge(ctx, np, "received samples", y, wy, tol, tag)
                ctx.seen(np.round(y / np.abs(y).max(), 3))


def response(tf, m, mode, prec, *a):
    """the model's own impulse response; in single precision the phase of a direct path of hundreds of
    kilometres depends on the order of operations, which compilation may change: compare like with like"""
    if prec == "single" and mode == "graph":
        return tf.function(lambda: m(*a))()
    return m(*a)


def pick(ctx, c, prec, i):
    """execution mode of the i-th configuration of a case (None: left to the thorough tier)"""
    i += c.get("k", 0)
    if ctx.tier != "quick":
        return ("eager", "graph", "xla")[i % 3]
    if prec == "single":
        return ("eager", None, None, "graph")[i % 4]
    return ("eager", "graph", "eager", "xla" if c.get("k", 0) % 3 == 0 else None)[i % 4]


def judge(ctx, np, name, got, want, tol, tag):
    if got.shape != want.shape:
        return ctx.close(f"{name} {tag}", got, want)
    ax = tuple(range(2, want.ndim))
    s = np.abs(want).max(ax, keepdims=True)         # per batch example and receiver
    s = np.where(s > 0, s, 1)
    ctx.close(f"{name} {tag}", got / s, want / s, 0, tol)

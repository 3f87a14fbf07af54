"""P26: delay-line profiles: tabulated taps, fading process, spatial correlation."""
import itertools
LEVEL = "exploration"
RULE = ("all tapped-delay-line profiles x precisions x delay spreads (constructor and setter), Doppler x orbit x elevation, x speed ranges x numbers of antennas, batch examples, time steps and sinusoids x random draws "
        "(tables and extremes); correlation: every combination of transmit, receive and joint correlation matrices (identity, real, complex) for 1 to 3 antennas per side, the mixing matrix is "
        "recovered exactly from the uncorrelated and the correlated run under the same draws; all clustered-delay-line profiles x directions x delay spreads; non-trivial: distinct coefficient tensors")
ASSUMPTIONS = ["golden copy of the TR 38.811 tables 6.9.1 and 6.9.2 and of the TR 38.101-style profiles A30, B100, C300",
               "the documented sum-of-sinusoids model with one uniform phase per sinusoid and one uniform angle jitter per tap and sinusoid",
               "time series judged at 90 degrees elevation, where the additional satellite Doppler vanishes; that extra term is marked experimental in the code and its unit is not claimed, "
               "only that it adds to the terminal's Doppler and scales with carrier frequency, cosine of the elevation and the orbit as in TR 38.811 6.9.2",
               "CDL can be constructed and queried but not called: the repository documents it as not implemented"]
TDLS = ("A", "B", "C", "D", "A30", "B100", "C300")
FIX = {"A30": 30e-9, "B100": 100e-9, "C300": 300e-9}


def cases(tier):
    q = tier == "quick"
    for m, p in itertools.product(TDLS, ("single", "double")):
        yield dict(kind="tdl", model=m, prec=p, n=2 if q else 5)
        yield dict(kind="corr", model=m, prec=p, n=2 if q else 3)
        yield dict(kind="orbit", model=m, prec=p, n=2 if q else 3)
    for m, p in itertools.product("ABCD", ("single", "double")):
        yield dict(kind="cdl", model=m, prec=p)
    yield dict(kind="reject")


def gold(name):
    import json, os
    import numpy as np
    g = json.load(open(os.path.join(os.path.dirname(__file__), "..", "gold", "profiles.json")))[name]
    p = 10 ** (np.array(g["powers"]) / 10)
    p = p / p.sum()
    d = np.array(g["delays"])
    if g["los"]:
        return True, g["scale"], d[1:], p[1:], p[0]
    return False, g["scale"], d, p, 0.0


def reference(c, los, dl, pw, lp, B, R, T, N, S, fs, fc, v0, v1, aoa, u):
    """[B,1,R,1,T,C,N]; u(shape) gives the uniform draws"""
    import numpy as np
    C = len(dl)
    t = np.arange(N) / fs
    w0, w1 = (2 * np.pi * v / 299792458. * fc for v in (v0, v1))
    w = w0 + (w1 - w0) * u((B,))
    th = (2 * u((B, C, S)) - 1) * np.pi / S
    al = 2 * np.pi / S * np.arange(1, S + 1) + th
    ph = (2 * u((B, R, T, C, S)) - 1) * np.pi
    arg = w[:, None, None, None] * t[:, None] * np.cos(al)[:, :, None, :]        # B C N S
    h = np.exp(1j * (arg[:, None, None] + ph[:, :, :, :, None, :])).sum(-1) / np.sqrt(S)
    h = h * np.sqrt(pw)[:, None]
    if los:
        p0 = (2 * u((B,)) - 1) * np.pi
        h[:, :, :, 0] += (np.sqrt(lp) * np.exp(1j * (w[:, None] * t * np.cos(aoa) + p0[:, None])))[:, None, None]
    return h[:, None, :, None]


def run_case(ctx, c):
    import numpy as np
    from ..env import ntn, tf, RNG
    from .. import mode
    k = c["kind"]
    TDL, CDL = ntn.TDL, ntn.CDL
    if k == "reject":
        for m in ("F", "", "a", "A31", None, 3):
            try:
                TDL(m, 1e-7, 2e9)
            except Exception:
                ctx.check(True, "")
            else:
                ctx.check(False, f"TDL model {m!r} accepted")
        for kw in (dict(elevation_angle=-.1), dict(elevation_angle=90.1), dict(basestation_height=159999.), dict(min_speed=3., max_speed=2.)):
            try:
                TDL("A", 1e-7, 2e9, **kw)
            except Exception:
                ctx.check(True, "")
            else:
                ctx.check(False, f"TDL accepted {kw}")
        for kw in (dict(elevation_angle=0.), dict(elevation_angle=90.), dict(basestation_height=160000.), dict(min_speed=3., max_speed=3.)):
            TDL("A", 1e-7, 2e9, **kw)
            ctx.run()
            ctx.seen(str(kw))
        return
    prec = c["prec"]
    RT, CT = (tf.float32, tf.complex64) if prec == "single" else (tf.float64, tf.complex128)
    tol = 2e-4 if prec == "single" else 1e-9
    rt = 1e-5 if prec == "single" else 1e-11
    if k == "cdl":
        from .. import build as b
        los, _, dl, pw, lp = gold("CDL-" + c["model"])
        for fc, direction, ds in itertools.product((2e9, 30e9), ("uplink", "downlink"), (1e-7, 33e-9, 1e-6)):
            a = b.array(fc, precision=prec)
            m = CDL(c["model"], ds, fc, a, a, direction, precision=prec)
            ctx.run()
            tag = f"CDL-{c['model']} {direction} {ds} {prec}"
            want = pw.copy()
            if los:
                want[0] += lp
                ctx.close("K-factor " + tag, m.k_factor, lp / pw[0], rt)
            else:
                try:
                    m.k_factor
                except Exception:
                    pass
                else:
                    ctx.fail("K-factor of a profile without LoS " + tag)
            ctx.check(bool(m.los) == los and int(m.num_clusters) == len(dl), "LoS or number of clusters " + tag)
            ctx.close("powers " + tag, m.powers, want, rt, rt / 100)
            ctx.close("total power " + tag, np.sum(m.powers), 1., rt)
            ctx.close("delays " + tag, np.asarray(m.delays) * 1e9, dl * ds * 1e9, rt, rt / 10)
            m.delay_spread = tf.constant(2.5 * ds, RT)
            ctx.close("delays after a new delay spread " + tag, np.asarray(m.delays) * 1e9, dl * 2.5 * ds * 1e9, rt, rt / 10)
            ctx.check(m.powers.dtype == RT and m.delays.dtype == RT, "type " + tag)
            ctx.seen(np.asarray(m.delays) * 1e9, np.asarray(m.powers))
        return
    name = "TDL-" + c["model"]
    los, scale, dl, pw, lp = gold(name)
    C = len(dl)
    if k == "tdl":
        tot = pw.copy()
        if los:
            tot[0] += lp
        for i, (fc, ds) in enumerate(itertools.product((2e9, 29.5e9), (1e-7, 37e-9, FIX.get(c["model"], 1e-6)))):
            eff = FIX.get(c["model"], ds)
            dt = dl * ds if scale else dl * 1e-9
            for (v0, v1), (B, R, T), (N, fs), S, aoa in (((0., None), (1, 1, 1), (3, 1e3), 20, None), ((10., None), (2, 2, 1), (4, 1e3), 20, .3), ((1., 50.), (3, 1, 2), (5, 2e4), 7, 2.5),
                                                        ((0., 8.), (2, 3, 2), (1, 1e6), 1, 0.), ((300., 300.), (1, 2, 2), (6, 500.), 12, np.pi / 2), ((2., 9.), (5, 1, 4), (1100, 1e4), 33, 1.2))[i % 2::1 if c["n"] > 2 else 2]:
                kw = {} if aoa is None else dict(los_angle_of_arrival=aoa)
                for pol in ([["table", 0], ["const", .5, 0.], ["table", 3]] + [["const", 0., 0.], ["const", .999, 0.], ["table", 1]])[:1 + c["n"]]:
                    RNG.set(pol)
                    m = TDL(c["model"], ds, fc, num_sinusoids=S, min_speed=v0, max_speed=v1, num_rx_ant=R, num_tx_ant=T, elevation_angle=90., precision=prec, **kw)
                    tag = f"{name} fc={fc/1e9} ds={ds} speeds={v0},{v1} B={B} ant={R}x{T} steps={N} S={S} {prec} draws={pol}"
                    ctx.check(bool(m.los) == los and int(m.num_clusters) == C, "LoS or number of taps " + tag)
                    ctx.close("mean powers " + tag, m.mean_powers, tot, rt, rt / 1000)
                    ctx.close("total power " + tag, np.sum(m.mean_powers), 1., rt)
                    ctx.close("delays " + tag, np.asarray(m.delays) * 1e9, dt * 1e9, rt, rt / 10)
                    ctx.close("delay spread " + tag, float(m.delay_spread) * 1e9, eff * 1e9, rt)
                    if los:
                        ctx.close("K-factor " + tag, m.k_factor, lp / pw[0], rt)
                        ctx.close("LoS power " + tag, m.mean_power_los, lp, rt)
                    if mode.WARM:          # already used for another realisation
                        RNG.set(["table", 9])
                        m(B, N, 3 * fs), m(B + 1, N, fs)
                        RNG.set(pol)
                    h, tau = m(B, N, fs)
                    ctx.run()
                    ctx.check(h.dtype == CT and tau.dtype == RT, f"types {h.dtype}, {tau.dtype} {tag}")
                    w = reference(c, los, dl, pw, lp, B, R, T, N, S, fs, fc, v0, v0 if v1 is None else v1, np.pi / 4 if aoa is None else aoa, RNG.u)
                    ph = 2 * np.pi * max(v0, v1 or 0) / 3e8 * fc * N / fs
                    ctx.close("coefficients " + tag, h, w, 0, tol * (1 + .02 * ph))
                    ctx.close("path delays " + tag, np.asarray(tau) * 1e9, np.broadcast_to(dt * 1e9, (B, 1, 1, C)), rt, rt / 10)
                    h2, tau2 = m(B, N, fs)
                    ctx.close("second call with the same draws " + tag, h2, h.numpy(), 0, tol)
                    if scale:
                        m.delay_spread = tf.constant(3 * ds, RT)
                        _, tau2 = m(B, N, fs)
                        ctx.close("path delays after a new delay spread " + tag, np.asarray(tau2) * 1e9, np.broadcast_to(3 * dt * 1e9, (B, 1, 1, C)), rt, rt / 10)
                    else:
                        m.delay_spread = tf.constant(3 * ds, RT)
                        ctx.close("fixed delay spread " + tag, np.asarray(m(B, N, fs)[1]) * 1e9, np.broadcast_to(dt * 1e9, (B, 1, 1, C)), rt, rt / 10)
                    ctx.seen(h.numpy(), np.asarray(tau) * 1e9)
        return
    if k == "orbit":
        # one sinusoid arriving from the front turns by exactly the Doppler frequency: measured for every orbit, elevation, carrier and speed
        from ..rng import Func

        def w(v, e, h, f, fs):
            RNG.set(Func(lambda kind, shape: np.full(shape, .5), "half"))
            kw = {} if e is None else dict(elevation_angle=e)
            if h is not None:
                kw["basestation_height"] = h
            x = TDL(c["model"], 1e-7, f, num_sinusoids=1, min_speed=v, precision=prec, **kw)(1, 2, fs)[0].numpy()[0, 0, 0, 0, 0]
            ctx.run()
            a = np.angle(x[1:, 1] / x[1:, 0]) * fs
            ctx.close(f"one Doppler for all scattered taps {name} {v} {e} {h} {f}", a, a[:1] + 0 * a, 1e-3 if prec == "single" else 1e-9, 1e-3)
            return a[0]
        orbit = lambda h: 1 / (6371e3 + h) ** 1.5
        for f in (2e9, 29.5e9):
            ref0 = w(0., 0., 600000, f, 4 * f / 1e9) / (f * orbit(600e3))
            ctx.check(ref0 > 0, "satellite Doppler at the horizon is not positive " + name)
            for h, e in itertools.product((None, 160000., 1200e3, 35786e3)[:c["n"] + 2], (None, 10., 45., 77.5, 90.)):
                want = ref0 * f * orbit(600e3 if h is None else h) * np.cos(np.radians(80. if e is None else e))
                got = w(0., e, h, f, 4 * f / 1e9)
                ctx.close(f"satellite Doppler relative to the horizon at 600 km {name} height={h} elevation={e} {f/1e9} GHz {prec}", got, want, 2e-4 if prec == "single" else 1e-9, ref0 * f * orbit(600e3) * 1e-6)
                for v in (.3, 7.):
                    fs = 40 * f / 1e9 * max(1, v)
                    ctx.close(f"Doppler of terminal and satellite {name} height={h} elevation={e} speed={v} {f/1e9} GHz {prec}", w(v, e, h, f, fs), want + 2 * np.pi * v * f / 299792458., 5e-4 if prec == "single" else 1e-9, 1e-3 * fs if prec == "single" else 1e-6)
                ctx.seen(got)
        return
    # correlation
    def mats(n):
        i, j = np.meshgrid(np.arange(n), np.arange(n), indexing="ij")
        yield "identity", np.eye(n, dtype=complex)
        yield "real", (.8 ** np.abs(i - j)).astype(complex)
        a = .7 * np.exp(.9j)
        yield "complex", np.where(i >= j, a ** np.abs(i - j), np.conj(a) ** np.abs(i - j))
    from ..rng import Func
    fc, B, N, S = 2e9, 4, 6, 10
    spread = Func(lambda kind, shape: np.random.RandomState(int(np.prod(shape))).uniform(size=shape), "spread")   # well-conditioned samples
    for R, T in itertools.product(range(1, c["n"] + 1), repeat=2):
        base = dict(num_sinusoids=S, min_speed=40., num_rx_ant=R, num_tx_ant=T, elevation_angle=90., precision=prec)
        RNG.set(spread)
        h0 = TDL(c["model"], 1e-7, fc, **base)(B, N, 300.)[0].numpy()
        alts = [("rx " + a, dict(rx_corr_mat=x), np.kron(x, np.eye(T))) for a, x in mats(R)]
        alts += [("tx " + a, dict(tx_corr_mat=y), np.kron(np.eye(R), y)) for a, y in mats(T)]
        alts += [(f"rx {a}, tx {e}", dict(rx_corr_mat=x, tx_corr_mat=y), np.kron(x, y)) for (a, x), (e, y) in itertools.product(mats(R), mats(T))]
        alts += [("joint " + a, dict(spatial_corr_mat=x), x) for a, x in mats(R * T)]
        alts += [("joint before separate", dict(spatial_corr_mat=x, rx_corr_mat=np.eye(R), tx_corr_mat=np.eye(T)), x) for a, x in mats(R * T)]
        for nm, kw, want in alts:
            RNG.set(spread)
            h = TDL(c["model"], 1e-7, fc, **base, **{a: tf.constant(x, CT) for a, x in kw.items()})(B, N, 300.)[0].numpy()
            ctx.run()
            tag = f"{name} {R}x{T} antennas, {nm} {prec}"
            ctx.check(h.shape == h0.shape and h.dtype == h0.dtype, "shape or type " + tag)
            f = lambda x: np.moveaxis(x.astype(complex), (2, 4), (0, 1)).reshape(R * T, -1)
            # the applied mixing matrix M: h = M h0 for every batch example, tap and time step
            m, res, rank, _ = np.linalg.lstsq(f(h0).T, f(h).T, rcond=None)
            M = m.T
            ctx.check(rank == R * T, "internal: rank " + tag)
            ctx.close("mixing is the same for all taps, times and examples " + tag, M @ f(h0), f(h), 0, 2e-4 if prec == "single" else 1e-9)
            ctx.close("correlation matrix " + tag, M @ M.conj().T, want, 0, 5e-4 if prec == "single" else 1e-9)
            ctx.seen(h)

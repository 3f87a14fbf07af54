"""P21: conversion of impulse responses."""
import itertools
LEVEL = "exploration"
RULE = ("subcarrier grids and time vectors of every length 1..65 (thorough 1..300) and up to 4096 x spacings x precision; lag ranges over bandwidth x delay spread incl. exact multiples; "
        "conversion of impulse responses over every shape with batch, rx, tx, antennas, paths, time steps in small ranges and each large in turn x per-link/per-antenna delays x normalisation x precision x "
        "frequency/lag sets, all entries compared with the direct sum; taps to OFDM over FFT size x prefix x symbols x lag range; non-trivial: distinct outputs")
ASSUMPTIONS = ["sinc(x) = sin(pi x) / (pi x)", "links with zero energy are left at zero by normalisation",
               "taps to OFDM is exact for delays at multiples of the sampling time inside the lag range"]


def cases(tier):
    n = 65 if tier == "quick" else 300
    for lo in range(1, n + 1, 16):
        yield dict(kind="grid", lo=lo, hi=min(lo + 16, n + 1))
    for n in (128, 600, 1023, 1024, 3276, 4096):
        yield dict(kind="grid", lo=n, hi=n + 1)
    yield dict(kind="lag")
    shapes = [s for s in itertools.product((1, 2), (1, 2), (1, 2, 3), (1, 2), (1, 2, 3), (1, 3, 5), (1, 4))]
    if tier == "quick":
        shapes = [s for i, s in enumerate(shapes) if i % 3 == 0 or len(set(s)) >= 4]
    for i in range(0, len(shapes), 6):
        yield dict(kind="cir", shapes=shapes[i:i + 6], k=i)
    for i, s in enumerate([(9, 2, 1, 3, 2, 4, 2), (1, 1, 2, 11, 1, 3, 1), (2, 7, 1, 1, 1, 24, 2), (1, 1, 16, 1, 1, 3, 2), (1, 2, 1, 1, 9, 2, 1), (1, 1, 1, 2, 2, 5, 28), (2, 1, 1, 1, 1, 72, 14)]):
        yield dict(kind="cir", shapes=[s], k=50 + i)
    for N, cp, S in [*itertools.product((8, 13, 32), (0, 3, 5), (1, 2, 3)), (256, 20, 14), (600, 0, 2)]:
        yield dict(kind="t2f", N=N, cp=cp, S=S)


def run_case(ctx, c):
    import numpy as np
    from .. import build as b
    from ..env import ntnu as u, tf, RNG
    pi2 = 2 * np.pi
    if c["kind"] == "grid":
        for n, sp, prec in itertools.product(range(c["lo"], c["hi"]), (1., 15e3, 30e3, 123.45), ("single", "double", None)):
            T = np.float64 if prec == "double" else np.float32
            rt = 1e-14 if prec == "double" else 3e-7
            k = np.arange(n) - n // 2
            f = u.subcarrier_frequencies(n, sp, **({} if prec is None else dict(precision=prec))).numpy()
            ctx.check(f.dtype == T, f"subcarrier frequency type {f.dtype} for {prec}")
            ctx.close(f"subcarrier frequencies n={n} spacing={sp} {prec}", f, k * sp, rt, 0)
            for dt in (1 / (sp * n), 1e-3 / sp):
                for nn in (n, float(n)):
                    t, f = [x.numpy() for x in u.time_frequency_vector(nn, dt, **({} if prec is None else dict(precision=prec)))]
                    ctx.check(t.dtype == f.dtype == T, f"time/frequency vector types {t.dtype}, {f.dtype} for {prec}")
                    ctx.close(f"time vector n={nn} dt={dt} {prec}", t, k * dt, rt, 0)
                    ctx.close(f"frequency vector n={nn} dt={dt} {prec}", f, k / (dt * n), 3 * rt, 0)
            ctx.run(5)
            ctx.seen([n, sp, prec])
    elif c["kind"] == "lag":
        for m, x in itertools.product((20, 17, 23, 10), (0, 1, 2, 3, 7, 60, .5, .25, 2.5, 2.0625, 30.9375, 511.5)):
            bw, ds = 2. ** m, x * 2. ** -m
            lo, hi = u.time_lag_discrete_time_channel(bw, ds)
            ctx.run()
            ctx.close(f"lag range bandwidth={bw} spread={ds}", [int(lo), int(hi)], [-6, int(np.ceil(x)) + 6], 0, 0)
            ctx.seen([m, x])
        for bw in (1e6, 1.92e6, 30.72e6, 7.1e5, 20e6, 99.9e6):
            lo, hi = u.time_lag_discrete_time_channel(bw)
            x = bw * 3e-6
            ok = {int(np.ceil(x * (1 - 1e-6))) + 6, int(np.ceil(x * (1 + 1e-6))) + 6}
            ctx.check(int(lo) == -6 and int(hi) in ok, f"lag range for bandwidth {bw} and the default spread: {int(lo)}..{int(hi)}")
            ctx.run()
    elif c["kind"] == "cir":
        for i, s in enumerate(c["shapes"]):
            B, R, Ra, Tx, Ta, P, T = s
            rng = np.random.RandomState(7 + i + c["k"])
            for per, prec, norm, zero in itertools.product((False, True), ("single", "double"), (False, True), (False, True)):
                if zero and not norm:
                    continue
                cd, rd = (np.complex64, np.float32) if prec == "single" else (np.complex128, np.float64)
                a = (rng.randn(*s) + 1j * rng.randn(*s)).astype(cd) * np.array(10. ** rng.uniform(-4, 1, (B, R, 1, Tx, 1, 1, 1))).astype(rd)
                if zero:
                    a[0, 0, :, 0] = 0
                tau = (rng.uniform(0, 4, (B, R, Ra, Tx, Ta, P) if per else (B, R, Tx, P)) * 1e-6).astype(rd)
                tau[..., 0] = 0
                full = tau if per else np.broadcast_to(tau[:, :, None, :, None], (B, R, Ra, Tx, Ta, P))
                full = full.astype(float)
                tag = f"shape={s} delays per {'antenna' if per else 'link'} {prec} normalize={norm} zero link={zero}"
                for fr in (np.array([0.]), (np.arange(7) - 3) * 15e3, np.array([-1e6, 3.3e5, 1e6]), *([(np.arange(300) - 150) * 15e3] if c["k"] >= 50 else [])):
                    g = u.cir_to_ofdm_channel(tf.constant(fr, rd), tf.constant(a), tf.constant(tau), normalize=norm).numpy()
                    ctx.run()
                    w = (a[..., None] * np.exp(-1j * pi2 * full[..., None, None] * fr)).sum(-3)
                    if norm:
                        e = (np.abs(w) ** 2).mean((2, 4, 5, 6), keepdims=True)
                        w = np.where(e > 0, w / np.sqrt(np.where(e > 0, e, 1)), 0)
                    ctx.check(g.dtype == cd, f"frequency response type {g.dtype} {tag}")
                    sc = np.abs(w).max((2, 4, 5, 6), keepdims=True) + 0 * np.abs(w)
                    cmp(ctx, f"frequency response {tag}", g, w, sc, 1e-4 if prec == "single" else 1e-10)
                    if norm:
                        pw = (np.abs(g) ** 2).mean((2, 4, 5, 6))
                        ctx.close(f"average energy per resource element {tag}", pw, np.where(np.abs(a).max((2, 4, 5, 6)) > 0, 1., 0.), 1e-4 if prec == "single" else 1e-10, 0)
                    ctx.seen(np.round(g, 4))
                for bw, l0, l1 in ((1e6, -6, 10), (1e6, 0, 0), (2.5e6, -2, 5), (3e5, -7, -1)):
                    g = u.cir_to_time_channel(bw, tf.constant(a), tf.constant(tau), l0, l1, normalize=norm).numpy()
                    ctx.run()
                    l = np.arange(l0, l1 + 1)
                    w = (a[..., None] * np.sinc(l - bw * full[..., None, None])).sum(-3)
                    if norm:
                        e = (np.abs(w) ** 2).sum(-1, keepdims=True).mean((2, 4, 5), keepdims=True)
                        w = np.where(e > 0, w / np.sqrt(np.where(e > 0, e, 1)), 0)
                    ctx.check(g.dtype == cd, f"tap type {g.dtype} {tag}")
                    sc = (1. if norm else np.abs(a[..., None]).sum(-3).max((2, 4, 5, 6), keepdims=True)) + 0 * np.abs(w)
                    if norm and l1 <= 0 and P == 1:
                        continue                        # the only tap at these lags is zero up to rounding
                    cmp(ctx, f"taps {l0}..{l1} bandwidth={bw} {tag}", g, w, sc, 3e-4 if prec == "single" else 1e-10)
                    if norm:
                        pw = (np.abs(g) ** 2).sum(-1).mean((2, 4, 5))
                        ctx.close(f"energy over the taps {tag}", pw, np.where(np.abs(a).max((2, 4, 5, 6)) > 0, 1., 0.), 1e-4 if prec == "single" else 1e-9, 0)
                    ctx.seen(np.round(g, 4))
    else:
        from types import SimpleNamespace as NS
        N, cp, S = c["N"], c["cp"], c["S"]
        df = 15e3
        bw = N * df
        rg = NS(fft_size=N, cyclic_prefix_length=cp, num_time_samples=S * (N + cp), num_ofdm_symbols=S)
        rng = np.random.RandomState(N + cp + S)
        fr = u.subcarrier_frequencies(N, df, precision="double")
        for l0, l1 in ((-2, 4), (0, 0), (0, 5), (-3, 0), (-1, N - 2), (-6, 1)):
            if l1 - l0 + 1 > N:
                continue
            P = min(3, l1 - l0 + 1)
            d = np.unique(np.linspace(max(l0, 0), l1, P).astype(int)) if l1 >= 0 else np.array([0])
            a = rng.randn(2, 1, 2, 2, 1, len(d), S * (N + cp)) + 1j * rng.randn(2, 1, 2, 2, 1, len(d), S * (N + cp))
            tau = np.broadcast_to(d / bw, (2, 1, 2, len(d)))
            ht = u.cir_to_time_channel(bw, tf.constant(a), tf.constant(tau), l0, l1)
            h = u.time_to_ofdm_channel(ht, rg, l0).numpy()
            ctx.run(2)
            # the tap vector is sampled at the first useful sample of every symbol
            w = u.cir_to_ofdm_channel(fr, tf.constant(a[..., cp::N + cp]), tf.constant(tau)).numpy()
            ctx.close(f"taps to OFDM against the direct conversion N={N} prefix={cp} symbols={S} lags {l0}..{l1}", h, w, 1e-9, 1e-9)
            ctx.seen(np.round(h, 5))
            # any taps: the transform of the taps at their lags
            x = rng.randn(2, 1, S * (N + cp), l1 - l0 + 1) + 1j * rng.randn(2, 1, S * (N + cp), l1 - l0 + 1)
            for xx, rt in ((x, 1e-9), (x.astype(np.complex64), 1e-4)):
                h = u.time_to_ofdm_channel(tf.constant(xx), rg, l0).numpy()
                ctx.run()
                k, l = np.arange(N) - N // 2, np.arange(l0, l1 + 1)
                w = np.einsum("...l,lk->...k", x[..., cp::N + cp, :], np.exp(-1j * pi2 * np.outer(l, k) / N))
                ctx.check(h.dtype == xx.dtype, f"type {h.dtype}")
                ctx.close(f"transform of taps N={N} prefix={cp} symbols={S} lags {l0}..{l1}", h, w, rt, 10 * rt)
                ctx.seen(np.round(h, 3))


def cmp(ctx, name, got, want, scale, tol):
    import numpy as np
    if got.shape != want.shape:
        return ctx.close(name, got, want)
    s = np.where(scale > 0, scale, 1)
    ctx.close(name, got / s, want / s, 0, tol)

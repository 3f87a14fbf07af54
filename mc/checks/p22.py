"""P22: helper functions."""
import itertools
LEVEL = "exploration"
RULE = ("exponential correlation: all a on a polar grid incl. 0 and magnitudes up to 0.999 x n 1..8, 17, 40 x leading shapes x precision; one-ring: angles -360..720 x antennas 1..8, 17, 40 x spacings x spreads x "
        "shapes; angle conversion and wrapping on every multiple of 0.5 degrees in -1080..1080; Bernoulli: every draw at, just below and just above the probability; orbital speed and Doppler "
        "over heights x elevations x carriers; relocation over all sector ids, shapes and cells; non-trivial: distinct outputs")
ASSUMPTIONS = ["gravitational constant 6.6743e-11, earth mass 5.972e24 kg, earth radius 6371 km"]


def cases(tier):
    n = 8 if tier == "quick" else 16
    for i in [*range(1, n + 1), 17, 40]:
        yield dict(kind="exp", n=i)
        yield dict(kind="ring", n=i)
    for k in ("angle", "bernoulli", "orbit", "relocate", "reject"):
        yield dict(kind=k)


def run_case(ctx, c):
    import numpy as np
    from .. import build as b
    from ..env import ntnu as u, tf, RNG
    from ..rng import Func
    k, n = c["kind"], c.get("n")
    if k == "exp":
        mag = np.array([0., 1e-3, .1, .5, .9, .999])
        a = (mag[:, None] * np.exp(1j * np.radians(np.arange(0, 360, 15)))[None]).ravel()
        pw = np.stack([a ** i if i else np.ones_like(a) for i in range(n)], -1)
        i, j = np.meshgrid(np.arange(n), np.arange(n), indexing="ij")
        w = np.where(i >= j, pw[:, np.abs(i - j)], np.conj(pw[:, np.abs(i - j)]))
        for prec, shape in itertools.product(("single", "double"), ((-1,), (6, 24), (2, 3, 4, 6), (1, 1, -1))):
            x = a.reshape(shape)
            T = np.complex64 if prec == "single" else np.complex128
            g = u.exp_corr_mat(tf.constant(x, T), n, precision=prec).numpy()
            ctx.run()
            ctx.check(g.dtype == T, f"type {g.dtype} for {prec}")
            ctx.close(f"exponential correlation n={n} shape={shape} {prec}", g, w.reshape(x.shape + (n, n)), 0, 1e-5 if prec == "single" else 1e-12)
            ctx.close(f"Hermitian n={n}", g, np.conj(np.swapaxes(g, -1, -2)), 0, 0)
            ctx.seen(g)
        for v in (.3, -.7, 0., .99):
            g = u.exp_corr_mat(v, n).numpy()
            ctx.run()
            ctx.close(f"exponential correlation of the scalar {v}", g, np.where(i == j, 1, np.power(v, np.abs(i - j).astype(float))), 0, 1e-5)
            g = u.exp_corr_mat(v, n, precision="double").numpy()
            ctx.close(f"exponential correlation of the scalar {v} in double precision", g, np.where(i == j, 1, np.power(v, np.abs(i - j).astype(float))), 0, 1e-12)
    elif k == "ring":
        ang = np.array([-360., -180., -135., -90., -45., -10., 0., 5., 30., 60., 89., 90., 120., 180., 270., 359., 400., 720.])
        i, j = np.meshgrid(np.arange(n), np.arange(n), indexing="ij")
        for dh, sg, prec, shape in itertools.product((.5, .25, 1., .7, 2.), (15., 0., 2., 10.), ("single", "double"), ((-1,), (2, 9), (3, 2, 3))):
            p, s = np.radians(ang)[:, None, None], np.radians(sg)
            d = 2 * np.pi * dh * (i - j)
            w = np.exp(1j * d * np.sin(p)) * np.exp(-s ** 2 / 2 * (d * np.cos(p)) ** 2)
            T = np.float32 if prec == "single" else np.float64
            g = u.one_ring_corr_mat(tf.constant(ang.reshape(shape), T), n, dh, sg, precision=prec).numpy()
            ctx.run()
            ctx.check(g.dtype == (np.complex64 if prec == "single" else np.complex128), f"type {g.dtype} for {prec}")
            tag = f"one-ring n={n} spacing={dh} spread={sg} shape={shape} {prec}"
            ctx.close(tag, g, w.reshape(ang.reshape(shape).shape + (n, n)), 0, 2e-4 if prec == "single" else 1e-11)
            ctx.close("Hermitian " + tag, g, np.conj(np.swapaxes(g, -1, -2)), 0, 0)
            ctx.close("diagonal " + tag, np.einsum("...ii->...i", g), np.ones(g.shape[:-1]), 0, 0)
            ctx.seen(g)
        g = u.one_ring_corr_mat(40., n).numpy()
        for v, dh, sg in ((40.1, .3, 11.7), (-12.3, .6, 3.3)):
            g = u.one_ring_corr_mat(v, n, dh, sg, precision="double").numpy()
            d = 2 * np.pi * dh * (i - j)
            w = np.exp(1j * d * np.sin(np.radians(v))) * np.exp(-np.radians(sg) ** 2 / 2 * (d * np.cos(np.radians(v))) ** 2)
            ctx.close(f"one-ring of the scalar {v} spacing={dh} spread={sg} in double precision", g, w, 0, 1e-11)
        g = u.one_ring_corr_mat(40., n).numpy()
        d = np.pi * (i - j)
        ctx.close("one-ring with defaults", g, np.exp(1j * d * np.sin(np.radians(40))) * np.exp(-np.radians(15) ** 2 / 2 * (d * np.cos(np.radians(40))) ** 2), 0, 2e-4)
    elif k == "angle":
        x = np.arange(-1080, 1080.1, .5)
        for T, shape in itertools.product((np.float32, np.float64), ((-1,), (1, -1, 1))):
            t = tf.constant(x.reshape(shape), T)
            rt = 1e-6 if T is np.float32 else 1e-12
            for name, f, w in (("deg_2_rad", u.deg_2_rad, x * np.pi / 180), ("rad_2_deg", u.rad_2_deg, x * 180 / np.pi), ("wrap_angle_0_360", u.wrap_angle_0_360, np.mod(x, 360.))):
                g = f(t)
                ctx.run()
                ctx.check(g.dtype == T, f"{name} changes the type to {g.dtype}")
                ctx.close(name, g.numpy().ravel(), w, rt, rt)
                ctx.seen(g.numpy(), [name])
            g = u.wrap_angle_0_360(t).numpy()
            ctx.check((g >= 0).all() and (g < 360).all(), "wrapped angle outside [0, 360)")
            ctx.close("round trip", u.rad_2_deg(u.deg_2_rad(t)).numpy(), t.numpy(), rt, rt)
        # every finite value is wrapped into [0, 360]
        for e in range(-30, 31):
            for s in (-1., 1.):
                v = u.wrap_angle_0_360(tf.constant([s * 2. ** e, s * 360 * 2. ** e, s * (360 - 2. ** e)], tf.float64)).numpy()
                ctx.run()
                ctx.check(((v >= 0) & (v < 360)).all(), f"wrapped angle {v}")
    elif k == "bernoulli":
        for p, prec in itertools.product((0., .25, .5, .75, 1., 1e-3), ("single", "double", None, tf.float32, tf.float64)):
            vals = np.array([0., p, max(0, np.nextafter(np.float32(p), np.float32(-1))), min(1 - 2 ** -23, np.nextafter(np.float32(p), np.float32(2))), .3, .6, 1 - 2 ** -23, 2 ** -23])
            vals = np.where(vals >= 1, 1 - 2 ** -23, vals)
            for shape in ([8], [2, 4], [1, 8, 1], [2, 2, 2]):
                RNG.set(Func(lambda kind, s: vals.reshape(s)))
                g = u.sample_bernoulli(shape, p, **({} if prec is None else dict(precision=prec))).numpy()
                ctx.run()
                ctx.check(g.dtype == bool, f"type {g.dtype}")
                T = np.float64 if prec in ("double", tf.float64) else np.float32
                ctx.close(f"Bernoulli sample p={p} {prec} draws={vals.tolist()}", g, (vals.astype(T) < T(p)).reshape(shape), 0, 0)
                ctx.seen(g, [p])
            # one probability per entry
            pr = np.linspace(0, 1, 8)
            RNG.set(Func(lambda kind, s: vals.reshape(s)))
            T = np.float64 if prec in ("double", tf.float64) else np.float32
            g = u.sample_bernoulli([8], tf.constant(pr, T), **({} if prec is None else dict(precision=prec))).numpy()
            ctx.run()
            ctx.close("Bernoulli sample with a probability per entry", g, vals.astype(T) < pr.astype(T), 0, 0)
    elif k == "orbit":
        h = np.array([0., 160e3, 200e3, 300e3, 550e3, 599999., 600e3, 1200e3, 1500e3, 2000e3, 20200e3, 35786e3])
        w = np.sqrt(6.6743e-11 * 5.972e24 / (6371e3 + h))
        for T, shape in itertools.product((np.float32, np.float64), ((-1,), (3, 4), (2, 1, 6))):
            g = u.compute_satellite_speed(tf.constant(h.reshape(shape), T))
            ctx.run()
            ctx.check(g.dtype == T, f"type {g.dtype}")
            ctx.close("satellite speed", g.numpy().ravel(), w, 1e-6 if T is np.float32 else 1e-12, 0)
            ctx.seen(g.numpy())
        for hh, e, fc in itertools.product(h, (10., 25., 45., 60., 80., 90.), (2e9, 4e9, 20e9, 30e9)):
            g = float(u.compute_stallite_doppler(tf.constant(hh, tf.float64), e, fc))
            ctx.run()
            v = np.sqrt(6.6743e-11 * 5.972e24 / (6371e3 + hh))
            d = v / 299792458. * 6371e3 / (6371e3 + hh) * np.cos(np.radians(e)) * fc
            ctx.close(f"satellite Doppler h={hh} elev={e} fc={fc}", g, fc + d, 1e-14, 1e-4)
            ctx.seen([hh, e, fc])
    elif k == "relocate":
        rs = np.random.RandomState(3)
        for T, B, U in itertools.product((np.float32, np.float64), (1, 2, 3), (1, 2, 4)):
            loc = rs.uniform(-900, 900, (B, U, 2))
            for sec, cell in itertools.product((0, 1, 2, "mix", "row"), ([0., 0.], [500., -120.], "each", "batch")):
                s = np.array(sec) if not isinstance(sec, str) else (np.arange(B * U).reshape(B, U) % 3 if sec == "mix" else (np.arange(U) + 1)[None].repeat(B, 0) % 3)
                cl = np.array(cell) if not isinstance(cell, str) else (rs.uniform(-2e3, 2e3, (B, U, 2)) if cell == "each" else rs.uniform(-2e3, 2e3, (B, 1, 2)))
                g = u.relocate_uts(tf.constant(loc, T), tf.constant(s, tf.int32), tf.constant(cl, T)).numpy()
                ctx.run()
                al = np.broadcast_to(s, (B, U)) * 2 * np.pi / 3
                w = np.stack([np.cos(al) * loc[..., 0] - np.sin(al) * loc[..., 1], np.sin(al) * loc[..., 0] + np.cos(al) * loc[..., 1]], -1) + cl
                ctx.check(g.dtype == T, f"type {g.dtype}")
                ctx.close(f"relocation batch={B} terminals={U} sector={sec} cell={cell}", g, w, 1e-5 if T is np.float32 else 1e-10, 1e-3 if T is np.float32 else 1e-9)
                ctx.seen(g)
    else:
        from .p18 import rejected
        for v in (1., -1., 1.5, 1j, -2., .8 + .8j):
            for prec in ("single", "double"):
                rejected(ctx, f"exponential correlation of magnitude {abs(v)}", lambda: u.exp_corr_mat(tf.constant([.5, v], tf.complex128), 3, precision=prec))

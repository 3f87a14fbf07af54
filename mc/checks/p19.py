"""P19: element patterns and polarisation."""
import itertools
LEVEL = "exploration"
RULE = ("every element kind x slant angle x precision over the full grid of directions (zenith and azimuth every 2.5 degrees, thorough every degree, plus boresight, "
        "poles, half-power points, the lobes of the aperture in steps of 0.1 degrees, clamp edges and the front-back boundary +- 1e-3 degrees), in scalar, vector and tensor shape; every array polarisation kind; "
        "non-trivial: distinct field tensors")
ASSUMPTIONS = ["the aperture radius is ten wavelengths", "directions within 1e-7 rad of the front-back boundary and single precision near pattern zeros are compared with an absolute tolerance"]
PAT = ["omni", "38.901", "aperture", "dlp"]
SL = [0., .3, -.7853981633974483, .7853981633974483, 1.5707963267948966, 2.2, -3.0]


def cases(tier):
    for p, s, prec in itertools.product(PAT, SL, ("single", "double")):
        yield dict(pat=p, slant=s, prec=prec, step=2.5 if tier == "quick" else 1.)
    yield dict(pat=None)


def run_case(ctx, c):
    import numpy as np
    from .. import build as b, ref
    from ..env import ntn, tf
    if c["pat"] is None:
        return kinds(ctx)
    T = np.float32 if c["prec"] == "single" else np.float64
    e = ntn.AntennaElement(c["pat"], c["slant"], precision=c["prec"])
    g = np.arange(0, 180.01, c["step"])
    extra = np.array([90., 89.999, 90.001, 57.5, 122.5, 45., 135., 12., 168., 1e-3, 179.999, 88., 92., 85.5, 83.3])
    if c["pat"] == "aperture":      # main lobe and first side lobes (a few degrees wide)
        extra = np.concatenate([extra, 90 + np.arange(-8, 8.01, .1 if c["step"] > 2 else .05)])
    th = np.unique(np.concatenate([g, extra]))
    pg = np.arange(-180, 180.01, c["step"])
    pex = np.array([0., .001, -.001, 32.5, -32.5, 65., -65., 45., -45., 89.99, 90.01, -89.99, -90.01, 129.9, -129.9, 102.77, 102.79, 1., -1., 3.3])
    ph = np.unique(np.concatenate([pg, pex]))
    th, ph = [np.radians(x).astype(T) for x in np.meshgrid(th, ph, indexing="ij")]
    # in the boundary plane of the aperture the front/back decision is a rounding matter: keep off by 1e-5 rad
    cosr = np.sin(th.astype(float)) * np.cos(ph.astype(float))
    keep = (np.abs(cosr) > 1e-4) if c["pat"] == "aperture" else np.ones(th.shape, bool)
    ft, fp = [x.numpy() for x in e.field(tf.constant(th), tf.constant(ph))]
    ctx.run()
    ctx.check(ft.dtype == fp.dtype == T, f"field types {ft.dtype}, {fp.dtype} for precision {c['prec']}")
    ctx.check(ft.shape == fp.shape == th.shape, f"field shapes {ft.shape}, {fp.shape} for {th.shape} directions")
    w = ref.pattern(c["pat"], th.astype(float), ph.astype(float))
    tag = f"{c['pat']} slant {c['slant']:.3f} {c['prec']}"
    single = c["prec"] == "single"
    if c["pat"] == "aperture":
        # amplitude is oscillating with 2 pi 10 sin(r): acos near boresight loses half the digits
        rt, at = (3e-3, 3e-3) if single else (1e-5, 1e-6)
    else:
        rt, at = (2e-4, 1e-6) if single else (1e-7, 1e-9)
    pw = ft.astype(float) ** 2 + fp.astype(float) ** 2
    ctx.close(f"power pattern {tag}", np.sqrt(pw)[keep], np.sqrt(w)[keep], rt, at)
    ctx.close(f"theta component {tag}", ft[keep], (np.sqrt(w) * np.cos(c["slant"]))[keep], rt, at)
    ctx.close(f"phi component {tag}", fp[keep], (np.sqrt(w) * np.sin(c["slant"]))[keep], rt, at)
    if c["pat"] == "aperture":
        back = cosr < -1e-4
        ctx.close(f"behind the aperture {tag}", pw[back], 0 * pw[back], 0, 0)
    ctx.seen(np.round(ft, 5), np.round(fp, 5))
    # boresight
    f = [float(x[0]) for x in e.field(tf.constant([np.pi / 2], T), tf.constant([0.], T))]
    ctx.close(f"boresight power {tag}", f[0] ** 2 + f[1] ** 2, {"38.901": 10 ** .8}.get(c["pat"], 1.), 1e-7 if not single else 1e-3)
    ctx.run()
    # the same values whatever the tensor shape, and element by element
    idx = [tuple(i) for i in np.argwhere(keep)[:: max(1, keep.sum() // 60)]]
    sub_t, sub_p = np.array([th[i] for i in idx], T), np.array([ph[i] for i in idx], T)
    for shape in ((-1,), (1, -1), (1, 1, -1, 1), (len(idx) // 2, -1) if len(idx) % 2 == 0 else (-1, 1)):
        a, bb = e.field(tf.constant(sub_t.reshape(shape)), tf.constant(sub_p.reshape(shape)))
        ctx.run()
        ctx.close(f"theta component in shape {a.shape} {tag}", a.numpy().ravel(), np.array([ft[i] for i in idx]), 1e-3 if single else 1e-9, 1e-4 if single else 1e-9)
        ctx.close(f"phi component in shape {a.shape} {tag}", bb.numpy().ravel(), np.array([fp[i] for i in idx]), 1e-3 if single else 1e-9, 1e-4 if single else 1e-9)


def kinds(ctx):
    import numpy as np
    from .. import build as b, ref
    from ..env import ntn, tf
    from .p18 import POL, rejected
    for p in ("omni", "38.901", "aperture", "dlp"):
        for (pol, typ), prec in itertools.product(POL, ("single", "double")):
            a = b.array(2e9, 1, 1, pol, typ, p, precision=prec)
            T = np.float32 if prec == "single" else np.float64
            th, ph = np.radians([90., 91., 88., 89.3]).astype(T), np.radians([0., .7, -1.2, 2.]).astype(T)
            els = [a.ant_pol1] + ([a.ant_pol2] if pol == "dual" else [])
            tot = []
            for el, s in zip(els, ref.slants(pol, typ)):
                ft, fp = [x.numpy().astype(float) for x in el.field(tf.constant(th), tf.constant(ph))]
                ctx.run()
                amp = np.sqrt(ref.pattern(p, th.astype(float), ph.astype(float)))
                ctx.close(f"theta component of {pol} {typ} {p} {prec}", ft, amp * np.cos(s), 2e-3 if prec == "single" else 1e-6, 1e-3 if prec == "single" else 1e-6)
                ctx.close(f"phi component of {pol} {typ} {p} {prec}", fp, amp * np.sin(s), 2e-3 if prec == "single" else 1e-6, 1e-3 if prec == "single" else 1e-6)
                tot.append(ft ** 2 + fp ** 2)
                ctx.seen(ft, fp)
            if pol == "dual":
                ctx.close(f"power of both polarisations {typ} {p} {prec}", tot[0], tot[1], 1e-3, 1e-6)
                ctx.check(len(els) == 2, "two polarisations")
    for bad in ("Omni", "iso", "38901", "tr38901", "", None, "aperture ", "DLP", 38.901):
        rejected(ctx, f"element pattern {bad!r}", lambda: ntn.AntennaElement(bad))
        rejected(ctx, f"array of pattern {bad!r}", lambda: b.array(2e9, pat=bad))

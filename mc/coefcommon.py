"""Shared by P12-P15: run the coefficient generator on explicit rays and topology, compare every link with the reference."""
import math
import numpy as np
from . import ref, mode
from .rng import Table

KINDS = [dict(), dict(typ="H"), dict(pol="dual", typ="VH"), dict(pol="dual", typ="cross"), dict(rows=2, cols=3, pat="38.901"),
         dict(rows=2, cols=1, pol="dual", typ="cross", pat="38.901"), dict(rows=1, cols=2, prow=2, pcol=1, pol="dual", typ="VH", pat="dlp"),
         dict(rows=1, cols=2, typ="H", pat="aperture"), dict(rows=3, cols=1, pcol=2, ev=.7, eh=.6, pat="dlp", typ="H")]
BIG = [dict(rows=8, cols=2, pol="dual", typ="cross", pat="38.901"), dict(rows=1, cols=24, pat="omni"), dict(rows=2, cols=2, prow=2, pcol=3, pol="dual", typ="VH", pat="dlp")]
ORI = [[0., 0., 0.], [.4, -.7, 1.9], [math.pi / 2, 0., 0.], [0., math.pi / 2, 0.], [2.9, 1.2, -2.2], [0., 0., math.pi], [-1.1, .6, .3], [0., math.pi, 0.]]
_t = Table(7)


def tab(shape, off, lo, hi):
    n = int(np.prod(shape))
    return lo + (hi - lo) * _t.tu[(np.arange(n) + 613 * off) % len(_t.tu)].reshape(shape)


def make(B, TX, RX, C, k, los=None, h=None, moving="rx", vel=0.0, fc=2e9, elev=40., dop=False, powers=None, delays=None, K=None, c_ds=None, M=20):
    """a problem instance as numpy arrays; TX/RX are numbers of transmitters/receivers"""
    U, N = (RX, TX) if moving == "rx" else (TX, RX)
    s = (B, TX, RX)
    q = dict(B=B, TX=TX, RX=RX, C=C, moving=moving, fc=fc, elev=elev, dop=dop)
    p = tab(s + (C,), k, .05, 1.)
    q["powers"] = p / p.sum(-1, keepdims=True) if powers is None else np.broadcast_to(powers, s + (C,)).copy()
    d = np.sort(tab(s + (C,), k + 1, 0, 300e-9), -1); d -= d[..., :1]
    q["delays"] = d if delays is None else np.broadcast_to(delays, s + (C,)).copy()
    for i, a in enumerate(("aoa", "aod")):
        q[a] = tab(s + (C, M), k + 2 + i, -math.pi + 1e-4, math.pi)
        q["los_" + a] = tab(s, k + 4 + i, 0, 2 * math.pi)
    for i, a in enumerate(("zoa", "zod")):
        q[a] = tab(s + (C, M), k + 6 + i, .02, math.pi - .02)
        q["los_" + a] = tab(s, k + 8 + i, .02, math.pi - .02)
    q["xpr"] = 10 ** tab(s + (C, M), k + 10, -.5, 2.5)
    q["K"] = tab(s, k + 11, .2, 30.) if K is None else np.broadcast_to(K, s).copy()
    q["los"] = (np.arange(int(np.prod(s))).reshape(s) + k) % 3 != 0 if los is None else np.broadcast_to(los, s).copy()
    q["d3"] = tab(s, k + 12, 6e5, 2e6)
    q["txo"] = np.array([[ORI[(k + b + 2 * i) % len(ORI)] for i in range(TX)] for b in range(B)])
    q["rxo"] = np.array([[ORI[(3 * k + 2 + b + 3 * i) % len(ORI)] for i in range(RX)] for b in range(B)])
    q["v"] = vel * tab((B, U, 3), k + 13, -1, 1)
    q["h"] = np.broadcast_to(np.array(3e5 if h is None else h, float), (B, N)).copy()
    q["c_ds"] = tab(s, k + 14, 1e-9, 9e-9) if c_ds is None else np.broadcast_to(c_ds, s).copy()
    return q


def run(q, tx, rx, T, fs, subcl, prec="double", pol=None):
    """-> h [B,TX,RX,paths,nrx,ntx,T], tau, phases [B,TX,RX,C,20,4], u of the satellite direction [B]"""
    from . import build as b
    tf, ntn = b.tf, b.ntn
    t = lambda x: tf.constant(x) if np.asarray(x).dtype == bool else tf.constant(x, b.RD[prec])
    gen = ntn.ChannelCoefficientsGenerator(tf.constant(q["fc"], b.RD[prec]), b.array(q["fc"], precision=prec, **tx), b.array(q["fc"], precision=prec, **rx), subcl, precision=prec)
    if mode.WARM:                # the same generator has already served another problem
        b.RNG.set(["table", 13])
        o = dict(q)
        for x in ("powers", "aoa", "aod", "zoa", "zod", "xpr", "K", "los", "d3", "txo", "rxo", "v", "h", "c_ds", "los_aoa", "los_aod", "los_zoa", "los_zod"):
            r = q[x][..., ::-1] if x not in ("powers",) else q[x]
            o[x] = np.ascontiguousarray(r if r.dtype == bool else r * .9 + (.1 * np.max(r) if x in ("powers", "K") else .01 * np.max(np.abs(r))))
        o["powers"] /= o["powers"].sum(-1, keepdims=True)
        call(gen, o, T, fs * 3, prec)
    b.RNG.set(pol or ["table", 4])
    h, tau, phi, st = call(gen, q, T, fs, prec)
    return h.numpy(), tau.numpy(), phi.numpy(), st.numpy()


def call(gen, q, T, fs, prec):
    from . import build as b
    tf, ntn = b.tf, b.ntn
    t = lambda x: tf.constant(x) if np.asarray(x).dtype == bool else tf.constant(x, b.RD[prec])
    topo = ntn.Topology(velocities=t(q["v"]), moving_end=q["moving"], los_aoa=t(q["los_aoa"]), los_aod=t(q["los_aod"]), los_zoa=t(q["los_zoa"]),
                        los_zod=t(q["los_zod"]), los=t(q["los"]), distance_3d=t(q["d3"]), tx_orientations=t(q["txo"]), rx_orientations=t(q["rxo"]),
                        bs_height=t(q["h"]), elevation_angle=q["elev"], doppler_enabled=q["dop"])
    rays = ntn.Rays(delays=t(q["delays"]), powers=t(q["powers"]), aoa=t(q["aoa"]), aod=t(q["aod"]), zoa=t(q["zoa"]), zod=t(q["zod"]), xpr=t(q["xpr"]))
    return gen(T, tf.constant(fs, b.RD[prec]), t(q["K"]), rays, topo, t(q["c_ds"]), debug=True)


def fsat(q, b, n, u):
    """satellite Doppler in Hz: cos(2 pi u) R/(R+h) cos(elev) v / lambda"""
    if not q["dop"]:
        return 0.0
    h = q["h"][b, n]
    return math.cos(2 * math.pi * u[b]) * ref.RE / (ref.RE + h) * math.cos(math.radians(q["elev"])) * ref.sat_speed(h) * q["fc"] / ref.C0


def reference(q, tx, rx, T, fs, subcl, phi, u):
    At, Ar = ref.Arr(q["fc"], **tx), ref.Arr(q["fc"], **rx)
    hs, ts = None, None
    for b in range(q["B"]):
        for i in range(q["TX"]):
            for j in range(q["RX"]):
                ut, bs = (j, i) if q["moving"] == "rx" else (i, j)
                x = (b, i, j)
                L = dict(delays=q["delays"][x], powers=q["powers"][x], aoa=q["aoa"][x], aod=q["aod"][x], zoa=q["zoa"][x], zod=q["zod"][x],
                         xpr=q["xpr"][x], K=q["K"][x], los=bool(q["los"][x]), d3=q["d3"][x], los_aoa=q["los_aoa"][x], los_aod=q["los_aod"][x],
                         los_zoa=q["los_zoa"][x], los_zod=q["los_zod"][x], txo=q["txo"][b, i], rxo=q["rxo"][b, j], v=q["v"][b, ut],
                         moving=q["moving"], h=q["h"][b, bs], c_ds=q["c_ds"][x], fsat=fsat(q, b, bs, u))
                h, tau = ref.ccg(q["fc"], At, Ar, T, fs, L, phi[x], subcl)
                if hs is None:
                    hs = np.zeros((q["B"], q["TX"], q["RX"]) + h.shape, complex)
                    ts = np.zeros((q["B"], q["TX"], q["RX"]) + tau.shape)
                hs[x], ts[x] = h, tau
    return hs, ts


def rounding(q):
    """phase of the direct path in radians that double precision does not resolve"""
    return 8 * np.finfo(float).eps * 2 * math.pi * np.max(q["d3"]) * q["fc"] / ref.C0


def judge(ctx, q, tx, rx, T, fs, subcl, tag, prec="double", pol=None, what="coefficients", tol=1e-8):
    from . import build as b
    h, tau, phi, st = run(q, tx, rx, T, fs, subcl, prec, pol)
    u = b.RNG.u((q["B"],))
    ctx.run()
    wh, wt = reference(q, tx, rx, T, fs, subcl, phi, u)
    m = np.abs(wh).max()
    tol += rounding(q)
    ctx.close(f"{what} {tag}", h, wh, 1e-8 if prec == "double" else 1e-3, (tol if prec == "double" else 2e-3) * m)
    ctx.close(f"delays {tag}", tau * 1e9, wt * 1e9, 1e-10 if prec == "double" else 1e-4, 1e-9 if prec == "double" else 1e-2)
    return h, tau, wh, wt, phi, u

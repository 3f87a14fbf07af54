"""Reference model: TR 38.811 / TR 38.901 channel generation in plain numpy (float64).
Written from the standards; per-link arrays are indexed [batch, bs, ut, ...]."""
import json, math, os
import numpy as np

C0 = 299792458.0
PI = math.pi
RE = 6371000.0
_T = json.load(open(os.path.join(os.path.dirname(__file__), "gold", "tables.json")))
NAMES = {"urb": "Urban", "dur": "Dense_Urban", "sur": "Sub_Urban"}
LSPN = ("DS", "ASD", "ASA", "SF", "K", "ZSA", "ZSD")   # order of the large-scale parameters
OFFS = np.array([s * x for x in (0.0447, 0.1413, 0.2492, 0.3715, 0.5129, 0.6797, 0.8844, 1.1481, 1.5195, 2.1551) for s in (1, -1)])
R_SUB = [[0, 1, 2, 3, 4, 5, 6, 7, 18, 19], [8, 9, 10, 11, 16, 17], [12, 13, 14, 15]]


class Tab:
    def __init__(self, scn, fc, direction, elev):
        b = "S" if fc <= 4e9 else "Ka"
        d = "UL" if direction == "uplink" else "DL"
        self.l, self.n = (_T[f"{NAMES[scn]}_{x}_{b}_band_{d}"] for x in ("LOS", "NLOS"))
        self.a = min(90, max(10, int(math.floor(elev / 10 + 0.5)) * 10))

    def one(self, name, los):
        t = self.l if los else self.n
        return t[name] if name in ("CPhiNLoS", "CThetaNLoS") else t[f"{name}_{self.a}"]

    def link(self, name, los):
        return np.where(los, self.one(name, True), self.one(name, False))

    def C(self):
        return int(max(self.one("numClusters", True), self.one("numClusters", False)))


def mu(tab, los):
    return np.stack([tab.link("muDS", los), tab.link("muASD", los), tab.link("muASA", los), 0.0 * los,
                     tab.link("muK", los) / 10, tab.link("muZSA", los), tab.link("muZSD", los)], -1)


def sigma(tab, los):
    return np.stack([tab.link("sigmaDS", los), tab.link("sigmaASD", los), tab.link("sigmaASA", los), tab.link("sigmaSF", los) / 10,
                     tab.link("sigmaK", los) / 10, tab.link("sigmaZSA", los), tab.link("sigmaZSD", los)], -1)


def cross_corr(tab, los):
    m = np.eye(7)
    for i, a in enumerate(LSPN):
        for j, b in enumerate(LSPN):
            for n in (f"corr{a}vs{b}", f"corr{b}vs{a}"):
                if i < j and f"{n}_{tab.a}" in tab.l:
                    m[i, j] = m[j, i] = tab.one(n, los)
    return m


# ---------------------------------------------------------------- geometry
class Geo:
    def __init__(g, elev, ut, bs):
        ut, bs = np.asarray(ut, float), np.asarray(bs, float)
        d = ut[:, None] - bs[:, :, None]
        g.d2 = np.hypot(d[..., 0], d[..., 1])
        h = bs[:, :, 2][:, :, None]
        s = math.sin(math.radians(elev))
        g.d3 = np.broadcast_to(np.sqrt(RE * RE * s * s + h * h + 2 * h * RE) - RE * s, g.d2.shape)
        az = np.degrees(np.arctan2(d[..., 1], d[..., 0]))
        g.aod, g.aoa = az % 360, (az + 180) % 360
        g.zod = np.degrees(np.arctan2(g.d2, d[..., 2]))
        g.zoa = 180 - g.zod
        g.h = bs[:, :, 2]
        e = ut[:, None, :, :2] - ut[:, :, None, :2]
        g.uu = np.hypot(e[..., 0], e[..., 1])
        with np.errstate(divide="ignore"):
            g.zoff_nlos = np.arctan(31.5 / g.d2) - np.arctan(33.5 / g.d2)


# ---------------------------------------------------------------- losses
def fspl(fc, d3):
    return 32.45 + 20 * np.log10(fc / 1e9) + 20 * np.log10(d3)


def gas(fc, elev, T=273.0, p=1020.0, pw=7.5):
    """ITU-R P.676-9 annex 2 (f < 54 GHz), zenith attenuation over sin(elevation)"""
    f = fc / 1e9
    rt, rp = 288.0 / T, p / 1013.0
    e1 = 0.955 * rp * rt ** 0.68 + 0.006 * pw
    e2 = 0.735 * rp * rt ** 0.5 + 0.0353 * rt ** 4 * pw

    def g(fi):
        return 1 + ((f - fi) / (f + fi)) ** 2
    ex = math.exp
    yw = (3.98 * e1 * ex(2.23 * (1 - rt)) / ((f - 22.235) ** 2 + 9.42 * e1 ** 2) * g(22)
          + 11.96 * e1 * ex(0.7 * (1 - rt)) / ((f - 183.31) ** 2 + 11.14 * e1 ** 2)
          + 0.081 * e1 * ex(6.44 * (1 - rt)) / ((f - 321.226) ** 2 + 6.29 * e1 ** 2)
          + 3.66 * e1 * ex(1.6 * (1 - rt)) / ((f - 325.153) ** 2 + 9.22 * e1 ** 2)
          + 25.37 * e1 * ex(1.09 * (1 - rt)) / (f - 380) ** 2 + 17.4 * e1 * ex(1.46 * (1 - rt)) / (f - 448) ** 2
          + 844.6 * e1 * ex(0.17 * (1 - rt)) / (f - 557) ** 2 * g(557)
          + 290 * e1 * ex(0.41 * (1 - rt)) / (f - 752) ** 2 * g(752)
          + 83328 * e2 * ex(0.99 * (1 - rt)) / (f - 1780) ** 2 * g(1780)) * f ** 2 * rt ** 2.5 * pw * 1e-4

    def xi(a, b, c, d):
        return rp ** a * rt ** b * ex(c * (1 - rp) + d * (1 - rt))
    x1, x2, x3 = xi(0.0717, -1.8132, 0.0156, -1.6515), xi(0.5146, -4.6368, -0.1921, -5.7416), xi(0.3414, -6.5851, 0.2130, -8.5854)
    yo = (7.2 * rt ** 2.8 / (f ** 2 + 0.34 * rp ** 2 * rt ** 1.6) + 0.62 * x3 / ((54 - f) ** (1.16 * x1) + 0.83 * x2)) * f ** 2 * rp ** 2 * 1e-3
    t1 = 4.64 / (1 + 0.066 * rp ** -2.3) * ex(-((f - 59.7) / (2.87 + 12.4 * ex(-7.9 * rp))) ** 2)
    t2 = 0.14 * ex(2.12 * rp) / ((f - 118.75) ** 2 + 0.031 * ex(2.2 * rp))
    t3 = 0.0114 / (1 + 0.14 * rp ** -2.6) * f * (-0.0247 + 0.0001 * f + 1.61e-6 * f ** 2) / (1 - 0.0169 * f + 4.1e-5 * f ** 2 + 3.2e-7 * f ** 3)
    ho = 6.1 / (1 + 0.17 * rp ** -1.1) * (1 + t1 + t2 + t3)
    sw = 1.013 / (1 + ex(-8.6 * (rp - 0.57)))
    hw = 1.66 * (1 + 1.39 * sw / ((f - 22.235) ** 2 + 2.56 * sw) + 3.37 * sw / ((f - 183.31) ** 2 + 4.69 * sw)
                 + 1.58 * sw / ((f - 325.1) ** 2 + 2.89 * sw))
    return abs((yo * ho + yw * hw) / math.sin(math.radians(elev)))


def scint(fc, elev, T=273.0, H=50.0, D=3.6, eff=0.5):
    f = fc / 1e9
    if f < 6:
        return 1.1 * (f / 4) ** -1.5 / math.sqrt(2)
    t = T - 273
    es = 6.1121 * math.exp(17.502 * t / (t + 240.97))
    nwet = 3732 * H * es / (t + 273) ** 2
    ref = 3.6e-3 + 1e-4 * nwet
    s = math.sin(math.radians(elev))
    L = 2000 / (math.sqrt(s * s + 2.35e-4) + s)
    x = 1.22 * eff * D * D * f / L
    g2 = 3.86 * (x * x + 1) ** (11 / 12) * math.sin(11 / 6 * math.atan(1 / x)) - 7.08 * x ** (5 / 6)
    sig = ref * f ** (7 / 12) * math.sqrt(max(g2, 0)) / s ** 1.2
    lp = math.log10(0.01)
    return abs((-0.061 * lp ** 3 + 0.072 * lp ** 2 - 1.71 * lp + 3.0) * sig)


# ---------------------------------------------------------------- LSP
def lsp(tab, los, indoor, uu, s):
    """s [B,N,U,7] standard normal -> dict of [B,N,U]"""
    B, N, U, _ = s.shape
    L = {True: np.linalg.cholesky(cross_corr(tab, True)), False: np.linalg.cholesky(cross_corr(tab, False))}
    t = np.zeros_like(s)
    for b in range(B):
        for n in range(N):
            for u in range(U):
                t[b, n, u] = L[bool(los[b, n, u])] @ s[b, n, u]
    o = np.zeros_like(t)
    for b in range(B):
        for n in range(N):
            st = [2 if indoor[b, u] else int(los[b, n, u]) for u in range(U)]
            for k, nm in enumerate(LSPN):
                R = np.array([[np.exp(-uu[b, i, j] / tab.one("corrDist" + nm, bool(los[b, n, i]))) if st[i] == st[j] else 0.0
                               for j in range(U)] for i in range(U)])
                o[b, n, :, k] = np.linalg.cholesky(R) @ t[b, n, :, k]
    v = 10.0 ** (sigma(tab, los) * o + mu(tab, los))
    d = dict(zip(LSPN, np.moveaxis(v, -1, 0)))
    for k, m in (("ASD", 104), ("ASA", 104), ("ZSA", 52), ("ZSD", 52)):
        d[k] = np.minimum(d[k], m)
    return d


# ---------------------------------------------------------------- rays
def mask(tab, los, C):
    """True where the cluster exists"""
    n = np.where(los, tab.one("numClusters", True), tab.one("numClusters", False))
    return np.arange(C) < n[..., None]


def delays(tab, los, ds, K, x, indoor=None):
    """-> delays, unscaled delays [B,N,U,C]"""
    C = x.shape[-1]
    ex = mask(tab, los, C)
    d = -tab.link("rTau", los)[..., None] * ds[..., None] * np.log(x)
    if indoor is not None:
        pass
    d = np.where(ex, d, 1.0)
    d = np.sort(d - d.min(-1, keepdims=True), -1)
    k = 10 * np.log10(K)
    cs = (0.7705 - 0.0433 * k + 0.0002 * k ** 2 + 0.000017 * k ** 3)[..., None]
    return np.where(los[..., None], d / cs, d), d


def powers(tab, los, ds, K, d, z):
    """-> powers, powers incl. LoS ray for the angle generation"""
    C = d.shape[-1]
    r = tab.link("rTau", los)[..., None]
    p = np.exp(-d * (r - 1) / (r * ds[..., None])) * 10 ** (-tab.link("zeta", los)[..., None] * z / 10) * mask(tab, los, C)
    p = p / p.sum(-1, keepdims=True)
    pa = p / (K[..., None] + 1)
    pa[..., 0] += K / (K + 1)
    return p, np.where(los[..., None], pa, p)


def wrap180(a):
    a = np.mod(a, 360.0)
    return np.where(a > 180, a - 360, a)


def wrapz(a):
    a = np.mod(a, 360.0)
    return np.where(a > 180, 360 - a, a)


def azimuth(tab, los, spread, K, pa, sign, z, los_ang, cspread):
    """sign [B,N,1,C] in +-1, z [B,N,U,C] normal -> [B,N,U,C,20] degrees"""
    k = 10 * np.log10(K)
    c = tab.link("CPhiNLoS", los) * np.where(los, 1.1035 - 0.028 * k - 0.002 * k ** 2 + 0.0001 * k ** 3, 1.0)
    q = np.clip(pa / pa.max(-1, keepdims=True), 1e-6, 1)
    dev = sign * (2 * spread[..., None] / 1.4) * np.sqrt(-np.log(q)) / c[..., None] + spread[..., None] / 7 * z
    dev = dev - np.where(los[..., None], dev[..., :1], 0)
    return wrap180((dev + los_ang[..., None])[..., None] + cspread[..., None, None] * OFFS)


def zenith(tab, los, indoor, spread, K, pa, sign, z, los_ang, cspread, zoff, departure):
    k = 10 * np.log10(K)
    c = tab.link("CThetaNLoS", los) * np.where(los, 1.3086 + 0.0339 * k - 0.0077 * k ** 2 + 0.0002 * k ** 3, 1.0)
    q = np.clip(pa / pa.max(-1, keepdims=True), 1e-6, 1)
    dev = sign * (-spread[..., None] * np.log(q)) / c[..., None] + spread[..., None] / 7 * z
    dev = dev - np.where(los[..., None], dev[..., :1], 0)
    if departure:
        base = los_ang + np.where(los, 0, zoff)
    else:
        base = np.where(indoor[:, None, :], 90.0, los_ang)
    return wrapz((dev + base[..., None])[..., None] + cspread[..., None, None] * OFFS)


def rays(tab, geo, los, indoor, l, R):
    """R: object with u(shape), z(shape).  l: dict of LSPs.  Angles in degrees, uncoupled."""
    B, N, U = los.shape
    C = tab.C()
    x = 1e-6 + (1 - 1e-6) * R.u((B, N, U, C))
    dl, du = delays(tab, los, l["DS"], l["K"], x)
    p, pa = powers(tab, los, l["DS"], l["K"], du, R.z((B, N, U, C)))
    sign = 2 * np.floor(2 * R.u((B, N, 1, C))) - 1
    z = R.z((B, N, U, C))
    sat = (geo.h >= 160e3)[:, :, None]
    asd, zsd = np.where(sat, 0, l["ASD"]), np.where(sat, 0, l["ZSD"])
    o = dict(delays=dl, powers=p, pa=pa)
    o["aod"] = azimuth(tab, los, asd, l["K"], pa, sign, z, geo.aod, tab.link("cASD", los))
    o["aoa"] = azimuth(tab, los, l["ASA"], l["K"], pa, sign, z, geo.aoa, tab.link("cASA", los))
    o["zod"] = zenith(tab, los, indoor, zsd, l["K"], pa, sign, z, geo.zod, 3 / 8 * 10 ** mu(tab, los)[..., 6], geo.zoff_nlos, True)
    o["zoa"] = zenith(tab, los, indoor, l["ZSA"], l["K"], pa, sign, z, geo.zoa, tab.link("cZSA", los), 0, False)
    o["xpr"] = 10 ** ((tab.link("muXPR", los)[..., None, None] + tab.link("sigmaXPR", los)[..., None, None] * R.z((B, N, U, C, 20))) / 10)
    return o


# ---------------------------------------------------------------- antennas
def pattern(name, th, ph):
    """power pattern; ph in [-pi, pi]"""
    th, ph = np.asarray(th, float), np.asarray(ph, float)
    if name == "omni":
        return np.ones(np.broadcast(th, ph).shape)
    if name in ("38.901", "dlp"):
        bw, m, g = (65.0, 30.0, 8.0) if name == "38.901" else (90.0, 25.0, 0.0)
        av = np.minimum(12 * ((np.degrees(th) - 90) / bw) ** 2, m)
        ah = np.minimum(12 * (np.degrees(ph) / bw) ** 2, m)
        return 10 ** ((g - np.minimum(av + ah, m)) / 10)
    from scipy.special import j1
    c = np.clip(np.sin(th) * np.cos(ph), -1, 1)
    s = np.sqrt(np.maximum(0, np.cos(th) ** 2 + (np.sin(th) * np.sin(ph)) ** 2))   # sine of the angle off boresight
    x = 2 * PI * 10 * s
    with np.errstate(all="ignore"):
        a = np.where(x < 1e-9, 1.0, 4 * (j1(x) / np.where(x == 0, 1, x)) ** 2)
    return np.where(c < 0, 0.0, a)


def slants(pol, typ):
    return {("single", "V"): [0.0], ("single", "H"): [PI / 2], ("dual", "VH"): [0.0, PI / 2], ("dual", "cross"): [-PI / 4, PI / 4]}[(pol, typ)]


class Arr:
    """reference antenna array: positions (m), polarisation index per element"""

    def __init__(a, fc, rows=1, cols=1, pol="single", typ="V", pat="omni", prow=1, pcol=1, ev=None, eh=None, pv=None, ph=None):
        ev = 0.5 if ev is None else ev
        eh = 0.5 if eh is None else eh
        pv = (rows - 1) * ev + 0.5 if pv is None else pv
        ph = (cols - 1) * eh + 0.5 if ph is None else ph
        pos, ind = [], []
        y0 = ((pcol - 1) * ph + (cols - 1) * eh) / 2
        z0 = ((prow - 1) * pv + (rows - 1) * ev) / 2
        for J in range(pcol):
            for I in range(prow):
                for q in range(len(slants(pol, typ))):
                    for j in range(cols):
                        for i in range(rows):
                            pos.append((0, J * ph + j * eh - y0, z0 - I * pv - i * ev))
                            ind.append(q)
        a.pos, a.ind = np.array(pos, float) * C0 / fc, np.array(ind)
        a.sl, a.pat, a.n = slants(pol, typ), pat, len(ind)


def rotm(o):
    a, b, c = o
    A = np.array([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1]])
    Bm = np.array([[math.cos(b), 0, math.sin(b)], [0, 1, 0], [-math.sin(b), 0, math.cos(b)]])
    Cm = np.array([[1, 0, 0], [0, math.cos(c), -math.sin(c)], [0, math.sin(c), math.cos(c)]])
    return A @ Bm @ Cm


def sph(th, ph):
    """unit vectors r, theta, phi at (th, ph): [..., 3]"""
    st, ct, sp, cp = np.sin(th), np.cos(th), np.sin(ph), np.cos(ph)
    return (np.stack([st * cp, st * sp, ct], -1), np.stack([ct * cp, ct * sp, -st], -1), np.stack([-sp, cp, 0 * sp], -1))


def field(arr, orient, th, ph):
    """field [..., n_pol, 2] (theta, phi components in the global system) towards (th, ph)"""
    R = rotm(orient)
    r, et, ep = sph(th, ph)
    rl = r @ R                                   # R^T r
    thl = np.arccos(np.clip(rl[..., 2], -1, 1))
    phl = np.arctan2(rl[..., 1], rl[..., 0])
    _, etl, epl = sph(thl, phl)
    amp = np.sqrt(pattern(arr.pat, thl, phl))
    out = []
    for s in arr.sl:
        v = (amp * math.cos(s))[..., None] * etl + (amp * math.sin(s))[..., None] * epl
        v = v @ R.T
        out.append(np.stack([(v * et).sum(-1), (v * ep).sum(-1)], -1))
    return np.stack(out, -2)


def array_phase(arr, orient, th, ph, lam):
    r = sph(th, ph)[0]
    return np.exp(2j * PI / lam * (r @ (rotm(orient) @ arr.pos.T)))      # [..., n]


def sat_speed(h):
    return math.sqrt(6.6743e-11 * 5.972e24 / (RE + h))


def ccg(fc, tx, rx, T, fs, link, phases, subcl=True):
    """one link.  link: dict with delays, powers [C], aoa.. [C,20] rad, xpr [C,20], K, los, d3, los_aoa.. rad,
    txo, rxo (orientations), v (velocity), moving ('rx'|'tx'), h (bs height), c_ds, fsat (satellite Doppler Hz).
    phases [C,20,4].  -> h [paths, nrx, ntx, T], tau [paths]"""
    lam = C0 / fc
    t = np.arange(T) / fs
    sat = link["h"] >= 600e3
    f = math.radians(108.0 / (fc / 1e9) ** 2)
    F = np.array([[math.cos(f), -math.sin(f)], [math.sin(f), math.cos(f)]]) if sat else np.eye(2)

    def coeff(aoa, zoa, aod, zod, M):
        Fr, Ft = field(rx, link["rxo"], zoa, aoa), field(tx, link["txo"], zod, aod)       # [..., npol, 2]
        M = M @ F
        g = np.einsum("...pi,...ij,...qj->...pq", Fr, M, Ft)
        g = g[..., rx.ind, :][..., tx.ind]                                              # [..., nrx, ntx]
        g = g * array_phase(rx, link["rxo"], zoa, aoa, lam)[..., :, None] * array_phase(tx, link["txo"], zod, aod, lam)[..., None, :]
        r = sph(zoa, aoa)[0] if link["moving"] == "rx" else sph(zod, aod)[0]
        fd = r @ np.asarray(link["v"]) / lam + (link["fsat"] if sat else 0.0)
        return g[..., None] * np.exp(2j * PI * fd[..., None, None, None] * t)
    e = np.exp(1j * phases)
    k = np.sqrt(1 / link["xpr"])
    M = np.stack([np.stack([e[..., 0], k * e[..., 1]], -1), np.stack([k * e[..., 2], e[..., 3]], -1)], -2)
    H = coeff(link["aoa"], link["zoa"], link["aod"], link["zod"], M)                     # [C,20,nrx,ntx,T]
    nr = H.shape[1]
    H = H * np.sqrt(link["powers"] / nr)[:, None, None, None, None]
    paths = []
    if subcl:
        strong = np.argsort(-link["powers"], kind="stable")[:2]
        for c in range(len(link["powers"])):
            if c in strong:
                for i, ix in enumerate(R_SUB):
                    paths.append((link["delays"][c] + (0, 1.28, 2.56)[i] * link["c_ds"], H[c, ix].sum(0)))
            else:
                paths.append((link["delays"][c], H[c].sum(0)))
    else:
        paths = [(link["delays"][c], H[c].sum(0)) for c in range(len(link["powers"]))]
    paths.sort(key=lambda p: p[0])
    tau = np.array([p[0] for p in paths])
    h = np.array([p[1] for p in paths])
    if link["los"]:
        K = link["K"]
        ml = np.array([[1, 0], [0, -1]], complex)
        hl = coeff(*(np.asarray(link["los_" + x]) for x in ("aoa", "zoa", "aod", "zod")), ml) * np.exp(2j * PI * link["d3"] / lam)
        h = h * math.sqrt(1 / (K + 1))
        h[0] = h[0] + math.sqrt(K / (K + 1)) * hl
    return h, tau

"""Shared by P09-P11: run the ray generator on explicit LSPs and return its rays with the scenario."""
import itertools
import numpy as np


def configs(tier, els=None):
    els = els or range(10, 91, 10)
    for (i, s), (j, (f, d)), e in itertools.product(enumerate(("urb", "dur", "sur")), enumerate(((2e9, "uplink"), (3e9, "downlink"), (20e9, "uplink"), (30e9, "downlink"))), els):
        yield i, j, dict(scn=s, fc=f, dir=d, elev=float(e))


def pats():
    return [np.array([[[0, 1, 0], [1, 1, 0]], [[0, 0, 1], [1, 0, 1]]], bool), np.array([[[1, 0, 1], [0, 0, 1]], [[1, 1, 0], [0, 1, 0]]], bool)]


def lsps(shape, k):
    """alphabets of large-scale parameters, different on every link"""
    n = np.arange(int(np.prod(shape))).reshape(shape) + k
    a = lambda v, m: np.array(v, float)[(n * m + k) % len(v)]
    return dict(DS=a([1e-9, 3e-8, 2e-7, 1e-6, 5e-10], 1), ASD=a([.01, 5., 104., 40., 1.], 2), ASA=a([2., 30., 104., .3, 60.], 3),
                SF=a([.5, 1., 2.], 1), K=a([.3, 1., 5., 31., 200., .6, .03, 2e4], 1), ZSA=a([1., 52., .2, 15., 6.], 2), ZSD=a([.3, 20., 52., 2.], 1))


def setup(c, pat, topo, prec="double"):
    from . import build as b
    from . import mode
    sc = b.scenario(c["scn"], c["fc"], c["dir"], c["elev"], precision=prec)
    b.RNG.set(b.losdraw(pat))
    if mode.WARM:                # the same generator has already served another topology
        with b.warm():
            b.RNG.set(b.losdraw(~np.asarray(pat, bool)))
            sc.set_topology(**b.decoy(b.tt(topo, prec)))
            gen = b.ntn.RaysGenerator(sc)
            gen.topology_updated_callback()
            b.RNG.set(["table", 12])
            generate(gen, lsps(np.shape(pat), 3), prec)
    sc.set_topology(**b.tt(topo, prec))
    if not mode.WARM:
        gen = b.ntn.RaysGenerator(sc)
    gen.topology_updated_callback()
    return sc, gen


def generate(gen, l, prec="double"):
    from . import build as b
    T = lambda x: b.tf.constant(x, b.RD[prec])
    r = gen(b.ntn.LSP(ds=T(l["DS"]), asd=T(l["ASD"]), asa=T(l["ASA"]), sf=T(l["SF"]), k_factor=T(l["K"]), zsa=T(l["ZSA"]), zsd=T(l["ZSD"])))
    return {k: getattr(r, k).numpy() for k in ("delays", "powers", "aoa", "aod", "zoa", "zod", "xpr")}


BIG = np.arange(4 * 3 * 9).reshape(4, 3, 9) % 11 % 3 > 0      # many examples, base stations and terminals

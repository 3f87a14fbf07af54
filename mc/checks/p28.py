"""P28: seeded runs are reproducible.

OpenNTN draws from the framework's generator and from TensorFlow's; both are seeded.  That the
framework's seed alone does not suffice is a known finding, looked for by the last case."""
import itertools
REUSE = False
LEVEL = "exploration"
RULE = ("all histories up to the depth bound over {topology generation, location update, indoor update, LoS request, velocity update, call, long call, delay-line call, reseeding, a new model} after seeding, "
        "with the real generators, per configuration; every history is run on fresh objects with other states of all foreign generators and foreign draws between the steps, on the objects already used, and under another seed; "
        "calls in eager, graph and XLA mode; a state is the tuple of results so far")
ASSUMPTIONS = ["`sionna.phy.config.seed` is the framework's documented means of reproducibility", "no equality between eager, graph and XLA draws is claimed"]
EV = ["gen", "loc", "ind", "losT", "vel", "call", "long", "tdl", "seed", "new"]
CFG = [("urb", 2e9, "uplink", 40., "single", False), ("sur", 20e9, "downlink", 60., "double", True), ("dur", 3e9, "downlink", 30., "single", True), ("urb", 28e9, "uplink", 80., "double", False)]


def cases(tier):
    for ci in range(4):
        d = 3 if tier != "quick" and ci < 2 else 2 if tier != "quick" or ci < 2 else 1
        for h in itertools.product(range(len(EV)), repeat=d):
            yield dict(cfg=ci, hist=list(h), mode="eager")
        for m in ("graph", "xla"):
            yield dict(cfg=ci, hist=[0, 5, 5, 6], mode=m)
            yield dict(cfg=ci, hist=[1, 5, 7, 6], mode=m)
    for m in ("A", "B", "C", "D", "A30", "B100", "C300"):
        for q in ("eager", "graph", "xla"):
            yield dict(tdl=m, mode=q, cfg=1, hist=[])
    yield dict(cfg=0, hist=[0, 5], mode="eager", seeds="framework")


def run_case(ctx, c):
    from ..rng import real
    with real():
        explore(ctx, c)


def foreign(k):
    """put every generator that is not the framework's into another state"""
    import random
    import numpy as np
    np.random.seed(k)
    random.seed(k)
    for _ in range(k % 3 + 1):
        np.random.rand(), random.random()


class World:
    def __init__(self, c):
        from .. import build as b
        self.b, self.c = b, c
        self.both = c.get("seeds") != "framework"
        s, fc, d, e, self.prec, al = self.cfg = CFG[c["cfg"]]
        self.new()
        self.seed = 0
        self.t = b.topo(2, 2, 2)
        self.tdl = b.ntn.TDL(c.get("tdl", "D"), 100e-9, 2e9, min_speed=1., max_speed=20., num_rx_ant=2, precision=self.prec)

    def new(self):
        s, fc, d, e, p, al = self.cfg
        self.m = self.b.channel(s, fc, d, e, precision=p, always_generate_lsp=al)
        self.fns = {}

    def start(self, seed):
        from sionna.phy import config
        self.v = 0
        self.fns = {}
        config.seed = seed
        if self.both:
            self.b.tf.random.set_seed(seed)
        self.seed = seed

    def call(self, f, *a):
        if self.c["mode"] != "eager":
            if (id(f), a) not in self.fns:
                self.fns[id(f), a] = self.b.tf.function(lambda: f(*a), jit_compile=self.c["mode"] == "xla")
            return [x.numpy() for x in self.fns[id(f), a]()]
        return [x.numpy() for x in f(*a)]

    def state(self):
        s = getattr(self.m, "_scenario", None)
        return [] if s is None else [s.los.numpy(), s.basic_pathloss.numpy()]

    def step(self, e):
        from sionna.phy import config
        b = self.b
        t = b.tt(self.t, self.prec)
        self.v += 1
        if e == "new":
            self.new()
            return self.step("full")
        if e == "full":
            self.m.set_topology(**t)
            return self.state()
        if e == "gen":
            g = b.ntnu.gen_single_sector_topology(2, 2, self.cfg[0], elevation_angle=self.cfg[3], min_ut_height=1., max_ut_height=20., max_ut_velocity=30., precision=self.prec)
            self.m.set_topology(*g)
            return [x.numpy() for x in g] + self.state()
        if e == "loc":
            self.m.set_topology(ut_loc=t["ut_loc"] + 20. * self.v, bs_loc=t["bs_loc"], ut_orientations=t["ut_orientations"], bs_orientations=t["bs_orientations"])
            return self.state()
        if e == "ind":
            self.m.set_topology(in_state=~t["in_state"] & [[False, self.v % 2 == 0], [False, False]])
            return self.state()
        if e == "losT":
            self.m.set_topology(los=True)
            return self.state()
        if e == "vel":
            self.m.set_topology(ut_velocities=t["ut_velocities"] * self.v)
            return []
        if e == "call":
            return self.call(self.m, 2, 1e4)
        if e == "long":
            return self.call(self.m, 5, 1e3)
        if e == "tdl":
            return self.call(self.tdl, 2, 3, 1e4)
        config.seed = self.seed = self.seed + 100
        if self.both:
            b.tf.random.set_seed(self.seed)
        return []


def explore(ctx, c):
    import numpy as np
    hist = ["full"] + [EV[i] for i in c["hist"]] + ([] if c["mode"] != "eager" or c["hist"] and EV[c["hist"][-1]] in ("call", "long") else ["call"])
    if "tdl" in c:
        hist = ["tdl"] * 3

    def run(w, seed, noise):
        foreign(noise)
        w.start(seed)
        out = []
        for i, e in enumerate(hist):
            if noise % 2:
                foreign(noise + i)
            if noise == 5 and i == 1:
                World(c)              # constructing another model is no draw
            out.append(w.step(e))
        ctx.run()
        return out
    tag = f"{CFG[c['cfg']]} {c.get('tdl', '')} {c['mode']} {hist}"

    if c.get("seeds") == "framework":
        import tensorflow as tf
        r = []
        for k in range(2):
            tf.random.set_seed(1000 + k)
            r.append(run(World(c), 7, k))
        ctx.check(all(np.array_equal(x, y) for p, q in zip(*r) for x, y in zip(p, q)), f"seeding sionna.phy.config alone does not determine the results {tag}", key="framework-seed")
        return

    def same(a, b, what):
        if c["mode"] == "xla":      # XLA ignores the seed of TensorFlow's generator: part of the known finding
            return
        for i, (x, y) in enumerate(zip(a, b)):
            for j, (p, q) in enumerate(zip(x, y)):
                ctx.check(p.shape == q.shape and np.array_equal(p, q, equal_nan=p.dtype.kind in "fc"), f"result {j} of step {i} ({hist[i]}) differs {what}: {tag}")
    w = World(c)
    a = run(w, 7, 0)
    same(a, run(World(c), 7, 5), "between two runs with the same seed")
    if "losT" not in hist:
        if "new" in hist or c["mode"] != "eager" or "ind" not in hist:
            same(a, run(w, 7, 3), "when the same objects are used again with the same seed")
    d = run(World(c), 8, 0)
    for i, e in enumerate(hist):
        if e in ("call", "long", "tdl"):
            ctx.check(not np.array_equal(a[i][0], d[i][0]), f"step {i} ({e}) gives the same channel for two seeds: {tag}")
            for k in range(i):
                if hist[k] == e and "seed" not in hist:
                    ctx.check(not np.array_equal(a[i][0], a[k][0]), f"steps {k} and {i} ({e}) give the same realisation: {tag}")
        if e == "gen":
            ctx.check(not np.array_equal(a[i][0], d[i][0]) and not np.array_equal(a[i][4], d[i][4]), f"generated topologies do not depend on the seed: {tag}")
    ctx.seen([x for s in a for x in s[:1]][-1])

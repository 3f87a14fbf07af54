"""Controlled source of randomness.

Every random draw of the code under test goes through tf.random.* or the generator
sionna.phy.config.tf_rng.  Both are replaced by functions whose values depend only on
the kind of the draw (uniform or normal), the position inside the drawn tensor, and the
policy and epoch chosen by the harness - not on the order of the calls.  An execution is
therefore fully determined by the policy, and the harness can enumerate policies.
"""
import statistics
import numpy as np

N = 8191  # table length (prime)
_ND = statistics.NormalDist()


def _perm(seed):
    mult = (2654435761 + 7919 * seed) % N or 1
    return (np.arange(N, dtype=np.int64) * mult + 104729 * (seed + 1)) % N


class Table:
    """distinct, well spread values: u in (0,1), z standard normal (|z| < 4)"""

    def __init__(self, seed=0):
        self.seed = seed
        self.tu = (_perm(2 * seed) + 0.5) / N
        q = (_perm(2 * seed + 1) + 0.5) / N
        self.tz = np.array([_ND.inv_cdf(x) for x in q])
        self.name = f"table{seed}"

    def table(self, kind):
        return self.tu if kind == "u" else self.tz


class Const:
    def __init__(self, u=0.5, z=0.0):
        self.tu, self.tz = np.full(N, float(u)), np.full(N, float(z))
        self.name = f"const(u={u},z={z})"

    def table(self, kind):
        return self.tu if kind == "u" else self.tz


class Func:
    """eager only: fn(kind, shape) -> array of u/z values of that shape"""
    table = None

    def __init__(self, fn, name="func"):
        self.fn, self.name = fn, name


_cache = {}


def policy(spec):
    """policy from a JSON-able spec: ["table", k] or ["const", u, z]"""
    key = tuple(spec)
    if key not in _cache:
        _cache[key] = Table(spec[1]) if spec[0] == "table" else Const(*spec[1:])
    return _cache[key]


class Rng:
    def __init__(self):
        self.policy = Const()
        self.epoch = 0
        self.percall = False      # make values depend on a running call number as well
        self.calls = 0
        self.log = []

    def set(self, spec, epoch=0, percall=False):
        self.policy = policy(spec) if isinstance(spec, (list, tuple)) else spec
        self.epoch, self.percall, self.calls, self.log = epoch, percall, 0, []

    # reference side: the same values as numpy arrays
    def offset(self):
        return (self.epoch * 977 + (self.calls * 1301 if self.percall else 0)) % N

    def np(self, kind, shape):
        n = int(np.prod(shape))
        t = self.policy.table(kind)
        return t[(np.arange(n) + self.epoch * 977) % N].reshape(shape)

    def u(self, shape):
        return self.np("u", shape)

    def z(self, shape):
        return self.np("z", shape)

    def draw(self, kind, shape):
        import tensorflow as tf
        shape = tf.cast(tf.convert_to_tensor(shape), tf.int32)
        static = tf.get_static_value(shape)
        self.log.append((kind, None if static is None else tuple(int(x) for x in np.reshape(static, [-1]))))
        off = self.offset()
        self.calls += 1
        if isinstance(self.policy, Func):
            s = tuple(int(x) for x in static)
            return tf.constant(np.asarray(self.policy.fn(kind, s), np.float64).reshape(s), tf.float64)
        n = tf.reduce_prod(shape)
        idx = tf.math.floormod(tf.range(n) + off, N)
        return tf.reshape(tf.gather(tf.constant(self.policy.table(kind), tf.float64), idx), shape)


RNG = Rng()
_swap = []


class real:
    """with real(): the code under test draws from the real generators"""

    def __enter__(self):
        from . import env    # installs the controlled generators
        for o, n, orig, ours in reversed(_swap):
            setattr(o, n, orig)

    def __exit__(self, *a):
        for o, n, orig, ours in _swap:
            setattr(o, n, ours)


def install():
    import tensorflow as tf
    from sionna.phy import config as cfg

    def num(x, dtype):      # tf.cast would round a Python number to single precision first
        return tf.constant(x, dtype) if isinstance(x, (int, float)) else tf.cast(x, dtype)

    def uniform(shape, minval=0, maxval=None, dtype=tf.float32, seed=None, name=None):
        dtype = tf.as_dtype(dtype)
        u = RNG.draw("u", shape)
        if dtype.is_integer:
            lo, hi = tf.cast(minval, tf.float64), tf.cast(maxval, tf.float64)
            return tf.cast(tf.floor(lo + (hi - lo) * u), dtype)
        lo, hi = num(minval, dtype), num(1 if maxval is None else maxval, dtype)
        return lo + (hi - lo) * tf.cast(u, dtype)

    def normal(shape, mean=0.0, stddev=1.0, dtype=tf.float32, seed=None, name=None):
        dtype = tf.as_dtype(dtype)
        return num(mean, dtype) + num(stddev, dtype) * tf.cast(RNG.draw("z", shape), dtype)

    def shuffle(value, seed=None, name=None):
        z = RNG.draw("z", [tf.shape(value)[0]])
        return tf.gather(value, tf.argsort(z))

    class Gen:
        def uniform(self, shape, minval=0, maxval=None, dtype=tf.float32, name=None):
            return uniform(shape, minval, maxval, dtype)

        def normal(self, shape, mean=0.0, stddev=1.0, dtype=tf.float32, name=None):
            return normal(shape, mean, stddev, dtype)

        def __getattr__(self, a):
            raise AttributeError("uncontrolled random operation tf_rng." + a)

    gen = Gen()
    l = [(tf.random, "uniform", uniform), (tf.random, "normal", normal), (tf.random, "shuffle", shuffle)]
    l += [(t, "tf_rng", property(lambda self: gen)) for t in dict.fromkeys(type(c) for c in (cfg, getattr(cfg, "config", None)) if c is not None and hasattr(type(c), "tf_rng"))]
    for o, n, f in l:
        _swap.append((o, n, getattr(o, n), f))
        setattr(o, n, f)

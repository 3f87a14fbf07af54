import importlib, hashlib, json, os, sys, traceback
import numpy as np
from . import mode


class Stop(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.violations, self.samples = [], []
        self.seen_, self.states_ = set(), set()
        self.execs = self.comparisons = self.trans = self.traces = self.cases = 0
        self.case = None

    def fail(self, msg, key=None, stop=True):
        if len([v for v in self.violations if v["key"] == key]) < 50:
            self.violations.append(dict(case=self.case, msg=msg, key=key))
        if stop:
            raise Stop

    def check(self, cond, msg, key=None, stop=True):
        self.comparisons += 1
        if not bool(cond):
            self.fail(msg() if callable(msg) else msg, key, stop)

    def close(self, name, got, want, rtol=1e-6, atol=1e-9, key=None, stop=True):
        got, want = np.asarray(got), np.asarray(want)
        if got.dtype == bool:
            got, want = got.astype(int), want.astype(int)
        self.comparisons += max(1, got.size)
        if got.shape != want.shape:
            return self.fail(f"{name}: shape {got.shape}, expected {want.shape}", key, stop)
        if got.size == 0:
            return
        with np.errstate(all="ignore"):
            bad = ~((np.abs(got - want) <= atol + rtol * np.abs(want)) | (got == want))
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            self.fail(f"{name}{list(i)}: got {got[i]!r}, expected {want[i]!r} ({int(bad.sum())}/{bad.size} differ)", key, stop)

    def run(self, n=1):
        self.execs += n

    def h(self, obj):
        if isinstance(obj, np.ndarray):
            b = np.round(obj, 6).tobytes() if obj.dtype.kind in "fc" else obj.tobytes()
            b += str(obj.shape).encode()
        else:
            b = json.dumps(obj, sort_keys=True, default=str).encode()
        return hashlib.blake2b(b, digest_size=8).hexdigest()

    def seen(self, *objs):
        self.seen_.add(":".join(self.h(o) for o in objs))

    def state(self, *objs):
        self.states_.add(":".join(self.h(o) for o in objs))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)


def warm(c):
    """every other case runs on objects that were used for something else before (fixed by the case itself)"""
    return bool(hashlib.blake2b(json.dumps(c, sort_keys=True).encode(), digest_size=1).digest()[0] & 1)


def in_repo(tb):
    return any(os.path.realpath(f.filename).startswith("/repo/") for f in traceback.extract_tb(tb))


def main():
    prop, tier, i, n, tmp = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    cases = json.load(open(tmp + "/cases.json"))[i::n]
    mod = importlib.import_module("mc.checks." + prop.lower())
    ctx = Ctx(prop, tier)
    for c in cases:
        ctx.case = c
        mode.WARM = getattr(mod, "REUSE", True) and warm(c)
        try:
            mod.run_case(ctx, c)
        except Stop:
            pass
        except Exception as e:
            if not in_repo(e.__traceback__) and not getattr(e, "_from_repo", False):
                raise
            last = [f for f in traceback.extract_tb(e.__traceback__) if os.path.realpath(f.filename).startswith("/repo/")]
            try:
                where = f" at {os.path.basename(last[-1].filename)}:{last[-1].name}" if last else ""
                ctx.fail(f"unexpected {type(e).__name__}: {str(e)[:300]}{where}", "exc")
            except Stop:
                pass
        ctx.cases += 1
        ctx.sample(c)
        if len(ctx.violations) > 60:
            break
    json.dump(dict(violations=ctx.violations, seen=sorted(ctx.seen_), states=sorted(ctx.states_), execs=ctx.execs,
                   comparisons=ctx.comparisons, trans=ctx.trans, traces=ctx.traces, cases=ctx.cases, samples=ctx.samples),
              open(f"{tmp}/r{i}.json", "w"))


if __name__ == "__main__":
    main()

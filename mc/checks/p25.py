"""P25: the installer, explored as a transition system over host files."""
import itertools
LEVEL = "model_checking"
RULE = ("states: all host files of up to 5 (thorough 6) lines over {anchor import, own import (at most once), other imports, code, comment, non-ASCII comment, blank}, each with and "
        "without final newline, for both installer scripts; transition: one run of the real script in a scratch tree; each state is run to a fixed point and once more; "
        "crash points: the process killed, or the disk full, after every number of written bytes and before the final rename, each followed by a rerun; faults: missing distribution, missing tree, missing file, file is a directory, undecodable file, open for reading fails, open for writing fails; "
        "non-trivial: distinct (before, after) pairs")
ASSUMPTIONS = ["the framework is located through pkg_resources or importlib.metadata, both replaced by a stub that points into a scratch directory",
               "host lines mention the two imports only as whole import statements", "line ends are \\n"]
ANCHOR, OWN = "from . import tr38901\n", "from . import tr38811\n"
ABC = [ANCHOR, OWN, "from .utils import *\n", "from . import optical\n", "# the channel package\n", "# 3GPP modèles – ünïcode\n", "\n"]
SCRIPTS = {"post_install.py": "sionna/phy/channel", "post_install_legacy.py": "sionna/channel"}
WHERE = "/repo"


def cases(tier):
    d = 5 if tier == "quick" else 6
    for s in SCRIPTS:
        yield dict(kind="fault", script=s)
        yield dict(kind="crash", script=s)
        for a in range(-1, len(ABC)):
            for b in range(-1, len(ABC)):
                if a == -1 and b > -1:
                    continue
                yield dict(kind="files", script=s, pre=[a, b], depth=d)


class Crash(BaseException):
    pass


class Host:
    def __init__(self, script):
        import os, tempfile
        self.dir = tempfile.mkdtemp(prefix="p25_")
        self.rel = SCRIPTS[script]
        self.pkg = os.path.join(self.dir, self.rel)
        os.makedirs(self.pkg)
        self.file = os.path.join(self.pkg, "__init__.py")
        path = os.path.join(WHERE, script)
        self.code = compile(open(path, encoding="utf8").read(), path, "exec")
        self.deny, self.missing, self.loc = None, False, self.dir
        self.budget, self.mode, self.crashed, self.moved = None, None, False, 0

    def stop(self):
        """the process is killed, or the operation fails for lack of space"""
        if self.mode == "crash":
            self.crashed = True
            raise Crash()
        raise OSError(28, "No space left on device")

    def raw(self, f):
        import io
        host = self

        class Raw(io.RawIOBase):
            def writable(self):
                return True

            def fileno(self):
                return f.fileno()

            def write(self, b):
                n = len(b)
                if host.crashed:
                    raise Crash()
                if host.budget is not None and host.budget >= 0:
                    n = min(n, host.budget)
                    if n == 0 and len(b):
                        host.stop()
                    host.budget -= n
                return f.write(bytes(b)[:n])

            def close(self):
                if not self.closed:
                    try:
                        super().close()
                    finally:
                        f.close()
        return Raw()

    def write(self, data):
        with open(self.file, "wb") as f:
            f.write(data)

    def read(self):
        with open(self.file, "rb") as f:
            return f.read()

    def run(self):
        """one run of the script as a program; returns the exception that escaped, if any"""
        import builtins, contextlib, io, os, pathlib, sys, types
        import importlib.metadata as md
        host = self
        stub = types.ModuleType("pkg_resources")

        class DistributionNotFound(Exception):
            pass

        class Dist:
            location = host.loc
            project_name = key = "sionna"
            version = "1.0.0"

            def locate_file(self, p):
                return pathlib.Path(host.loc) / str(p)

        def get(name, *a, **k):
            if host.missing or name != "sionna":
                raise DistributionNotFound(name)
            return Dist()

        def get_md(name, *a, **k):
            if host.missing or name != "sionna":
                raise md.PackageNotFoundError(name)
            return Dist()
        stub.get_distribution, stub.DistributionNotFound, stub.require = get, DistributionNotFound, lambda n: [get(n)]
        ropen = io.open

        def gopen(f, mode="r", *a, **k):
            w = any(x in mode for x in "wax+")
            if isinstance(f, (str, bytes, os.PathLike)):
                p = os.path.realpath(os.fspath(f))
                if w and not p.startswith(os.path.realpath(host.dir) + os.sep):
                    raise PermissionError(f"write outside the scratch tree: {f}")
                if host.deny and host.deny == ("w" if w else "r"):
                    raise PermissionError(13, "injected", str(f))
            if w and host.mode:
                if host.crashed:
                    raise Crash()
                raw = host.raw(ropen(f, mode.replace("t", "").replace("b", "").replace("U", "") + "b", 0, closefd=k.get("closefd", True), opener=k.get("opener")))
                buf = io.BufferedWriter(raw)
                return buf if "b" in mode else io.TextIOWrapper(buf, encoding=k.get("encoding") or "utf8", newline=k.get("newline"))
            return ropen(f, mode, *a, **k)
        real = {n: getattr(os, n) for n in ("replace", "rename", "remove", "unlink", "link", "write")}

        def guard(n):
            def call(*a, **k):
                if host.mode and n == "write":
                    room = len(a[1]) if host.budget is None else min(host.budget, len(a[1]))
                    if room == 0 and len(a[1]):
                        host.stop()
                    host.budget = None if host.budget is None else host.budget - room
                    return real[n](a[0], bytes(a[1])[:room])
                if host.mode and n in ("replace", "rename", "link"):
                    host.moved += 1
                    if host.budget == -1:
                        host.stop()
                if host.crashed:
                    raise Crash()
                return real[n](*a, **k)
            return call
        for n in real:
            setattr(os, n, guard(n))
        keep = sys.modules.get("pkg_resources"), md.distribution, builtins.open, io.open
        sys.modules["pkg_resources"], md.distribution = stub, get_md
        builtins.open = io.open = gopen
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                exec(self.code, {"__name__": "__main__", "__file__": self.code.co_filename})
            return None
        except BaseException as e:
            return e
        finally:
            for n in real:
                setattr(os, n, real[n])
            md.distribution, builtins.open, io.open = keep[1:]
            if keep[0] is None:
                sys.modules.pop("pkg_resources", None)
            else:
                sys.modules["pkg_resources"] = keep[0]

    def close(self):
        import shutil
        assert self.dir.startswith("/tmp/p25_") or "/p25_" in self.dir
        shutil.rmtree(self.dir)


def expected(lines):
    """acceptable results for a host file"""
    n = [l.rstrip("\n") for l in lines]
    if OWN.strip() in n or ANCHOR.strip() not in n:
        return ["".join(lines)]
    out = []
    for i, l in enumerate(n):
        if l == ANCHOR.strip():
            rest = lines[:i] + [ANCHOR, OWN] + lines[i + 1:]
            out.append("".join(rest))
            if not lines[i].endswith("\n"):
                out.append("".join(rest)[:-1])       # still no newline at the end of the file
    return out


def run_case(ctx, c):
    h = Host(c["script"])
    try:
        return dict(files=files, fault=fault, crash=crash)[c["kind"]](ctx, c, h)
    finally:
        h.close()


def files(ctx, c, h):
    pre = [ABC[i] for i in c["pre"] if i >= 0]
    if len(pre) < 2:
        if c["pre"][1] >= 0:
            return
        todo = [pre]
    else:
        todo = [pre + list(t) for n in range(c["depth"] - 1) for t in itertools.product(ABC, repeat=n)]
    for lines in todo:
        if lines.count(OWN) > 1:
            continue
        for final in (True, False):
            l = list(lines)
            if not final:
                if not l or l[-1] == "\n":
                    continue
                l[-1] = l[-1][:-1]
            before = "".join(l)
            want = expected(l)
            h.write(before.encode())
            got = before
            for k in range(3):
                e = h.run()
                ctx.run()
                ctx.trans += 1
                if e is not None:
                    ctx.fail(f"{c['script']}: {type(e).__name__}: {e} escapes for host file {before!r} (run {k + 1})")
                new = h.read().decode()
                if k == 0:
                    ctx.check(new in want, f"{c['script']}: host file {before!r} becomes {new!r}, expected {want[0]!r}")
                    ctx.seen(before, new)
                else:
                    ctx.check(new == got, f"{c['script']}: run {k + 1} changes the installed host file {got!r} to {new!r}")
                got = new
                ctx.state(got)
            ctx.state(before)
            ctx.traces += 1


def fault(ctx, c, h):
    import os
    data = (ABC[2] + ANCHOR + ABC[4] + ABC[3]).encode()

    def go(what, same=True):
        e = h.run()
        ctx.run()
        ctx.trans += 1
        ctx.check(e is None, lambda: f"{c['script']}: {type(e).__name__}: {e} escapes when {what}", stop=False)
        ctx.seen([what])
        ctx.state([what])
        if same is not False and os.path.isfile(h.file):
            ctx.check(h.read() == data, f"{c['script']}: host file changes when {what}", stop=False)
        ctx.traces += 1
    h.write(data)
    h.missing = True
    go("the distribution is not installed")
    h.missing = False
    for d in ("r", "w"):
        h.deny = d
        go("the file cannot be opened for " + dict(r="reading", w="writing")[d])
    h.deny = None
    for loc in ("/nonexistent/dir", "", h.dir + "/missing", h.dir + "/sionna"):
        h.loc = loc
        go(f"the framework tree is not at {loc and os.path.basename(loc)!r}")
    h.loc = h.dir
    data = b"# \xff\xfe\x80\n" + data
    h.write(data)
    go("the file cannot be decoded")
    os.remove(h.file)
    go("the file does not exist")
    ctx.check(not os.path.exists(h.file), f"{c['script']} creates a missing host file", stop=False)
    os.mkdir(h.file)
    go("the file is a directory")
    ctx.check(os.listdir(h.file) == [] and sorted(os.listdir(h.pkg)) == ["__init__.py"], f"{c['script']} leaves other files behind", stop=False)
    os.rmdir(h.file)
    # after every fault is gone the installation succeeds
    data = (ANCHOR + ABC[2]).encode()
    h.write(data)
    e = h.run()
    ctx.run()
    ctx.check(e is None and h.read() == (ANCHOR + OWN + ABC[2]).encode(), f"{c['script']}: installation after faults", stop=False)


def crash(ctx, c, h):
    """every interruption of the writing run leaves the old or the complete new file, and the next run completes it"""
    import os
    for lines in ([ABC[2], ANCHOR, ABC[3]], [ANCHOR], [ABC[4], ABC[5], "\n", ABC[2], ANCHOR, ABC[3], "\n"], [ABC[5] * 40, ANCHOR, ABC[3] * 300], [ABC[2], ABC[3]], [ANCHOR, OWN]):
        for final in (True, False):
            l = lines if final else lines[:-1] + [lines[-1].rstrip("\n")]
            if "".join(l[-1:]) == "":
                continue
            before, want = "".join(l), expected(l)
            size = len(max(want, key=len).encode())
            stops = range(size + 1) if size < 500 or ctx.tier != "quick" else sorted({*range(0, size + 1, 97), *range(40), *range(size - 40, size + 1), *range(4080, min(4112, size))})
            for mode in ("crash", "full"):
                for stop in [-1, *stops]:
                    h.write(before.encode())
                    h.mode, h.budget, h.crashed, h.moved = mode, stop, False, 0
                    e = h.run()
                    fired = h.crashed
                    h.mode, h.crashed = None, False
                    ctx.run()
                    ctx.trans += 1
                    tag = f"{c['script']}: {'killed' if mode == 'crash' else 'disk full'} " + ("at the final rename" if stop < 0 else f"after {stop} bytes") + f" of an installation into {before[:120]!r}"
                    ctx.check(e is None or fired and isinstance(e, Crash), lambda: f"{tag}: {type(e).__name__}: {e} escapes")
                    got = h.read().decode() if os.path.exists(h.file) else None
                    ctx.check(got == before or got in want, lambda: f"{tag}: the host file becomes {got if got is None else got[:120]!r}")
                    e = h.run()
                    ctx.trans += 1
                    ctx.check(e is None and h.read().decode() in want, lambda: f"{tag}: the next run leaves {h.read().decode()[:120]!r} ({e})")
                    ctx.state(before, got)
                    ctx.seen(before[:200], [mode, stop])
                    for x in os.listdir(h.pkg):
                        if x != "__init__.py":
                            os.remove(os.path.join(h.pkg, x))
                    ctx.traces += 1

"""C49: damaged files are refused or read, but never crash or hang a reader."""

import gc
import os
import resource
import shutil
import signal
import warnings

import hypothesis.strategies as st

from .. import sigs
from ..core import Prop, Reject, Sub, Violation
from . import c19
from .c41 import BY_PLUGIN, LAZY, descriptors, freeze, place, reader

# Bytes are changed only where the parser is RosettaSciIO's own: what the HDF5
# library or the decoders of images do with such files isn't decided here.
OWN = "blockfile bruker dens digitalmicrograph digitalsurf hamamatsu impulse jeol jobinyvon mrc msa pantarhei phenom protochips quadstar quantumdetector renishaw ripple semper tia tiff trivista tvips".split()
PLUGINS = sorted(p for p in BY_PLUGIN if any(f[2].rsplit(".", 1)[-1] != "zspy" for f in BY_PLUGIN[p]))
FILES = {p: [f for f in BY_PLUGIN[p] if not f[2].endswith(".zspy")] for p in PLUGINS}
SECONDS = 60


class TooLong(BaseException):
    pass


def too_long(*a):
    raise TooLong


positions = st.one_of(
    st.tuples(st.just("start"), st.integers(0, 3000)),
    st.tuples(st.just("end"), st.integers(0, 200)),
    st.tuples(st.just("of 1e6"), st.integers(0, 999_999)),
)
bytes_ = st.one_of(st.sampled_from([0, 1, 0x7F, 0x80, 0xFF]), st.integers(0, 255))
cut = st.fixed_dictionaries(dict(kind=st.just("cut"), at=positions))
other = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just("set"), at=positions, value=st.lists(bytes_, min_size=1, max_size=4))),
    st.fixed_dictionaries(dict(kind=st.just("flip"), at=positions, bit=st.integers(0, 7))),
    st.fixed_dictionaries(dict(kind=st.just("zeros"), at=positions, n=st.one_of(st.integers(1, 64), st.integers(1, 100_000)))),
    st.fixed_dictionaries(dict(kind=st.just("insert"), at=positions, value=st.lists(bytes_, min_size=1, max_size=9))),
    st.fixed_dictionaries(dict(kind=st.just("remove"), at=positions, n=st.one_of(st.integers(1, 64), st.integers(1, 100_000)))),
)


@st.composite
def cases(draw):
    plugin = draw(st.sampled_from(PLUGINS))
    return dict(
        file=draw(st.sampled_from(FILES[plugin])),
        which=draw(st.sampled_from([0, 0, 0, 1, 2])),
        damage=[draw(cut)] if plugin not in OWN or draw(st.integers(0, 2)) == 0 else draw(st.lists(other, min_size=1, max_size=4)),
        lazy=draw(st.booleans()),
    )


def position(at, size):
    where, n = at
    return min(size, n) if where == "start" else max(0, size - n) if where == "end" else size * n // 1_000_000


def damaged(raw, damage):
    b = bytearray(raw)
    for d in damage:
        i = position(d["at"], len(b))
        kind = d["kind"]
        if kind == "cut":
            b = b[:i]
        elif kind == "set":
            b[i : i + len(d["value"])] = bytes(d["value"])
        elif kind == "flip":
            if i < len(b):
                b[i] ^= 1 << d["bit"]
        elif kind == "zeros":
            n = min(d["n"], len(b) - i)
            b[i : i + n] = bytes(n)
        elif kind == "insert":
            b[i:i] = bytes(d["value"])
        else:
            del b[i : i + d["n"]]
    return bytes(b)


def read(plugin, path, **kw):
    f = c19.module("cython") if plugin == "bruker" else reader(plugin)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(path, **kw)


class limits:
    """Time and memory a damaged file may take."""

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_AS)
        with open("/proc/self/statm") as f:
            used = int(f.read().split()[0]) * resource.getpagesize()
        new = used + (3 << 30)
        if self.old[1] != resource.RLIM_INFINITY:
            new = min(new, self.old[1])
        resource.setrlimit(resource.RLIMIT_AS, (new, self.old[1]))
        self.handler = signal.signal(signal.SIGPROF, too_long)
        # code which can't be interrupted otherwise: the process is ended
        signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_PROF, SECONDS, 5)
        signal.setitimer(signal.ITIMER_VIRTUAL, 3 * SECONDS)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGPROF, self.handler)
        resource.setrlimit(resource.RLIMIT_AS, self.old)


_ref = {}


def check(c, ctx):
    f = tuple(c["file"])
    plugin = f[0]
    where = ctx.path("d")
    p = place(f, where)
    files = [p] + sorted(
        x for x in (os.path.join(os.path.dirname(p), g) for g in os.listdir(os.path.dirname(p))) if x != p and os.path.isfile(x) and os.path.basename(x).split(".")[0] == os.path.basename(p).split(".")[0]
    )
    target = files[c["which"] % len(files)]
    with open(target, "rb") as g:
        raw = g.read()
    bad = damaged(raw, c["damage"])
    if bad == raw:
        raise Reject("nothing changed")
    kinds = {d["kind"] for d in c["damage"]}
    if f not in _ref:
        try:
            _ref[f] = freeze(read(plugin, p))
        except Exception:
            _ref[f] = None
    with open(target, "wb") as g:
        g.write(bad)
    fds = descriptors()
    # With bytes changed, lazy arrays can be as large as any header announces:
    # the graph of their chunks alone takes a time which isn't the reader's.
    kw = dict(lazy=True) if c["lazy"] and plugin in LAZY and kinds == {"cut"} else {}
    how = f"{f}, {os.path.basename(target)}, {c['damage']}, lazy={bool(kw)}"
    signals = None
    try:
        with limits():
            try:
                signals = read(plugin, p, **kw)
                freeze(signals)
            except TooLong:
                raise
            except Exception as e:
                ctx.label(plugin, "refused: " + type(e).__name__)
            else:
                ctx.label(plugin, "read")
    except Violation:
        raise
    except TooLong:
        ctx.expect(False, "too-long", f"{how}: not finished after {SECONDS} s of processor time")
    except Exception:
        raise
    except BaseException as e:
        ctx.expect(False, f"raised:{type(e).__name__}", f"{how}: {e!r}")
    if signals is not None and kinds == {"cut"}:
        for s in signals:
            sigs.check_structure(ctx, s)
    signals = s = None
    with open(target, "rb") as g:
        ctx.expect(g.read() == bad, "file-changed", how)
    left = [x for x in descriptors() - fds if x[1].startswith(where)]
    if left:
        gc.collect()
        left = [x for x in descriptors() - fds if x[1].startswith(where)]
    ctx.expect(not left, "open-file", f"{how}: {left}")
    if _ref[f] is not None:
        # the next file isn't affected
        shutil.rmtree(where)
        p = place(f, where)
        from .c41 import compare

        compare(ctx, freeze(ctx.sut(read, plugin, p)), _ref[f], "afterwards", True)
    ctx.nontrivial(len(bad) > 64)


PROP = Prop(
    "C49",
    "more than 64 bytes of the damaged file are left",
    [Sub("damage", cases, check, quick=420, shards=8, guard=True)],
)

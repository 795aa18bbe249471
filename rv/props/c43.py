"""C43: memmap_distributed and slice utilities against numpy.memmap."""

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

DT = ["u1", "i2", ">u2", "<u4", ">i8", "f4", ">f8", "c8", "b1"]


def fill(path, offset, nbytes, seed, extra=0):
    rng = np.random.default_rng(seed)
    raw = rng.integers(0, 256, offset + nbytes + extra, dtype="u1").tobytes()
    with open(path, "wb") as f:
        f.write(raw)


@st.composite
def chunkings(draw, shape):
    k = draw(st.integers(0, 3))
    if k == 0:
        return "auto"
    if k == 1:
        return draw(st.sampled_from([-1, 1, 2, 3]))
    if k == 2:
        return tuple(draw(st.sampled_from(["auto", -1, 1, 2, s])) for s in shape)
    out = []
    for s in shape:
        parts = []
        while sum(parts) < s:
            parts.append(draw(st.integers(1, s - sum(parts))))
        out.append(tuple(parts))
    return tuple(out)


@st.composite
def plain(draw):
    shape = draw(gen.shapes(1, 5, 1, 6).filter(lambda s: np.prod(s) <= 240))
    structured = draw(st.sampled_from([None, None, "data", "sec", "all"]))
    dt = draw(st.sampled_from(DT))
    sub = draw(st.sampled_from([(), (3,), (2, 4)])) if structured else ()
    if structured == "data":
        full = shape + sub
    else:
        full = shape
    return dict(
        shape=shape,
        dtype=dt,
        structured=structured,
        sub=sub,
        offset=draw(st.sampled_from([0, 0, 1, 7, 64, 4097])),
        order=draw(st.sampled_from("CF")),
        chunks=draw(chunkings(full)),
        limit=draw(st.sampled_from([None, None, 16, 64, "1 KiB"])),
        given=draw(st.booleans()) or len(shape) > 1,
        extra=draw(st.sampled_from([0, 0, 5])),
        seed=draw(gen.seeds),
    )


def check_plain(c, ctx):
    from rsciio.utils.file import memmap_distributed

    p = ctx.path("d.raw")
    dt = np.dtype(c["dtype"])
    key = None
    if c["structured"]:
        dt = np.dtype([("data", dt, c["sub"]), ("sec", "<u2")])
        key = None if c["structured"] == "all" else c["structured"]
    nbytes = int(np.prod(c["shape"])) * dt.itemsize
    extra = c["extra"] if c["given"] else min(c["extra"], dt.itemsize - 1)
    fill(p, c["offset"], nbytes, c["seed"], extra)
    kw = dict(shape=c["shape"]) if c["given"] else {}
    order = c["order"]
    e = np.memmap(p, dt, mode="r", offset=c["offset"], shape=c["shape"], order=order)
    if key:
        e = e[key]
    ctx.label(c["dtype"], f"structured:{c['structured']}", order, "shape" if c["given"] else "no-shape", f"offset{c['offset']}")
    ctx.nontrivial(e.size > 1)
    x = ctx.sut(memmap_distributed, p, dt, offset=c["offset"], order=order, chunks=c["chunks"], block_size_limit=c["limit"], key=key, **kw)
    ctx.expect(hasattr(x, "__dask_keys__"), "lazy-type", f"{type(x)}")
    ctx.expect(x.shape == e.shape and x.dtype == e.dtype, "declared", f"{x.shape} {x.dtype} expected {e.shape} {e.dtype}")
    import dask.array as da

    base = dt[key].base if key else dt
    ch = da.core.normalize_chunks(c["chunks"], shape=e.shape, limit=c["limit"], dtype=base)
    ctx.expect(x.chunks == ch, "chunks", f"{x.chunks} expected {ch}")
    v = ctx.sut(x.compute)
    ctx.expect(v.shape == e.shape and v.dtype == e.dtype and np.ascontiguousarray(v).tobytes() == np.ascontiguousarray(e).tobytes(), "data", lambda: f"{gen.short(v)} expected {gen.short(np.array(e))}")
    # any sub-region computes to the region of the memory map
    rng = np.random.default_rng(c["seed"])
    sl = tuple(slice(a, a + int(rng.integers(1, 4))) for a in (int(rng.integers(0, s)) for s in e.shape))
    v = ctx.sut(x[sl].compute)
    ctx.expect(np.ascontiguousarray(v).tobytes() == np.ascontiguousarray(e[sl]).tobytes(), "slice", f"{sl}")


@st.composite
def positions(draw):
    nav = draw(gen.shapes(1, 3, 1, 5))
    sig = draw(gen.shapes(2, 2, 1, 4))
    total = int(np.prod(nav))
    idx = draw(st.permutations(range(total)))
    n = draw(st.integers(1, total))
    nchunks = draw(st.one_of(st.just("auto"), chunkings(nav).filter(lambda x: isinstance(x, tuple)).map(lambda x: x + (-1, -1))))
    return dict(
        nav=nav,
        sig=sig,
        frames=tuple(idx[:n]),
        dtype=draw(st.sampled_from(DT)),
        offset=draw(st.sampled_from([0, 0, 3, 128])),
        chunks=nchunks,
        aslist=draw(st.booleans()),
        limit=draw(st.sampled_from([None, None, 16, 64])),
        seed=draw(gen.seeds),
    )


def check_positions(c, ctx):
    from rsciio.utils.file import memmap_distributed

    p = ctx.path("d.raw")
    dt = np.dtype(c["dtype"])
    n = len(c["frames"])
    fill(p, c["offset"], n * int(np.prod(c["sig"])) * dt.itemsize, c["seed"])
    lin = np.memmap(p, dt, mode="r", offset=c["offset"], shape=(n,) + c["sig"])
    pos = np.stack(np.unravel_index(np.array(c["frames"]), c["nav"]), axis=-1)
    e = np.zeros(c["nav"] + c["sig"], dt)
    for i, q in enumerate(pos):
        e[tuple(q)] = lin[i]
    ctx.label(c["dtype"], f"nav{len(c['nav'])}", "all" if n == int(np.prod(c["nav"])) else "holes", "auto" if c["chunks"] == "auto" else "chunks")
    ctx.nontrivial(n > 1)
    x = ctx.sut(
        memmap_distributed,
        p,
        dt,
        positions=pos.tolist() if c["aslist"] else pos,
        offset=c["offset"],
        shape=c["nav"] + c["sig"],
        chunks=c["chunks"],
        block_size_limit=c["limit"],
    )
    ctx.expect(x.shape == e.shape and x.dtype == e.dtype, "declared", f"{x.shape} {x.dtype}")
    v = ctx.sut(x.compute)
    ctx.expect(v.shape == e.shape and np.ascontiguousarray(v).tobytes() == e.tobytes(), "data", lambda: f"{gen.short(v)} expected {gen.short(e)}")
    for q in pos[:3]:
        f = ctx.sut(x[tuple(q)].compute)
        ctx.expect(np.ascontiguousarray(f).tobytes() == e[tuple(q)].tobytes(), "frame", f"{q}")


PROP = Prop(
    "C43",
    "Random raw files: 1-5 dimensions, every dtype and byte order, structured dtypes with sub-arrays and keys, C and "
    "Fortran order, odd offsets, missing shape, trailing bytes, explicit/irregular/automatic chunks with block limits; "
    "random scan positions (partial or complete permutations of 1-3 navigation dimensions). The reference is "
    "numpy.memmap and a dense array filled position by position. Non-trivial: more than one element or position.",
    [
        Sub("plain", plain, check_plain, quick=900, shards=4),
        Sub("positions", positions, check_positions, quick=600, shards=3),
    ],
)

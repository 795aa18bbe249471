"""C12: npy files and inspection of npy headers, against numpy.lib.format."""

import io

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

DT = gen.INTS + gen.FLOATS + gen.COMPLEX + ["b1", "f2", ">u2", ">f4", ">c16", "S3", "U4", "M8[s]"]
RGB = ["rgb8", "rgba8", "rgb16", "rgba16"]
name = st.one_of(gen.idents.filter(bool), st.sampled_from(["ΔT", "电", "a b"]))
fields = st.lists(
    st.tuples(name, st.sampled_from(["u1", "<f4", ">i2", "<c8"]), st.sampled_from([(), (2,), (2, 3)])),
    min_size=1,
    max_size=4,
    unique_by=lambda f: f[0],
)


@st.composite
def cases(draw):
    nd = draw(st.integers(1, 5))
    shape = draw(gen.shapes(nd, nd, 1, 5))
    kind = draw(st.sampled_from(["plain"] * 5 + ["rgb", "struct"]))
    return dict(
        kind=kind,
        dtype=draw(st.sampled_from(DT)) if kind == "plain" else draw(st.sampled_from(RGB)) if kind == "rgb" else draw(fields),
        shape=shape,
        mode=draw(gen.modes),
        seed=draw(gen.seeds),
        layout=draw(st.sampled_from(["C", "F", "strided", "reversed"])),
        version=draw(st.sampled_from([None, None, (1, 0), (2, 0), (3, 0)])),
        nav=draw(st.one_of(st.none(), st.lists(st.integers(0, nd - 1), unique=True, max_size=nd))),
        chunks=draw(st.sampled_from(["auto", 1, 2, -1])),
    )


def build(c):
    n = int(np.prod(c["shape"]))
    if c["kind"] == "plain":
        dt = np.dtype(c["dtype"])
        if dt.kind in "SUM":
            rng = np.random.default_rng(c["seed"])
            v = rng.integers(0, 999, n)
            a = (v.astype("i8").astype(dt) if dt.kind == "M" else v.astype(str).astype(dt)).reshape(c["shape"])
        elif dt == np.dtype("f2"):
            a = (np.arange(n) % 2000).astype("f2").reshape(c["shape"])
        else:
            a = gen.make_array((dt.newbyteorder("=").str, c["shape"], c["mode"], c["seed"])).astype(dt)
    elif c["kind"] == "rgb":
        from .c07 import rgb_array

        a = rgb_array(c["dtype"], c["shape"], c["seed"])[1]
    else:
        dt = np.dtype([(f, t, s) for f, t, s in c["dtype"]])
        raw = np.random.default_rng(c["seed"]).integers(0, 60, n * dt.itemsize, dtype="u1")
        a = np.frombuffer(raw.tobytes(), dt).reshape(c["shape"])
    if c["layout"] == "F":
        a = np.asfortranarray(a)
    elif c["layout"] == "strided":
        big = np.zeros((2 * a.shape[0],) + a.shape[1:], a.dtype)
        big[::2] = a
        a = big[::2]
    elif c["layout"] == "reversed":
        a = np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    return a


def np_header(f, version):
    try:
        from numpy.lib._format_impl import _read_array_header as read
    except ImportError:  # numpy < 2.3
        from numpy.lib.format import _read_array_header as read
    return read(f, version)


def same(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def check(c, ctx):
    from rsciio.numpy import file_reader, file_writer
    from rsciio.utils.file import inspect_npy_bytes

    a = build(c)
    p = ctx.path("a.npy")
    ctx.label(c["kind"], str(c["dtype"]) if c["kind"] != "struct" else "struct", c["layout"], f"v{c['version']}", f"nd{a.ndim}")
    ctx.nontrivial(a.size > 1)
    version = c["version"]
    if version is not None and version < (3, 0) and any(ord(ch) > 255 for f in (a.dtype.names or ()) for ch in f):
        version = None
    if version is None:
        ctx.sut(file_writer, p, sigs.signal(a, [sigs.axis(i, s) for i, s in enumerate(a.shape)]))
    else:
        with open(p, "wb") as f:
            np.lib.format.write_array(f, a, version=version)
    loaded = np.load(p)
    ctx.expect(same(loaded, a), "stored", lambda: f"numpy loads {gen.short(loaded)} for {gen.short(a)}")
    # header
    raw = open(p, "rb").read()
    bio = io.BytesIO(raw)
    offset, shape, dtype = ctx.sut(inspect_npy_bytes, bio)
    ref = io.BytesIO(raw)
    v = np.lib.format.read_magic(ref)
    e = np_header(ref, v)
    ctx.expect(offset == ref.tell() and bio.tell() == ref.tell(), "offset", f"{offset}, at {bio.tell()}, expected {ref.tell()}")
    ctx.expect(tuple(shape) == e[0], "shape", f"{shape}")
    ctx.expect(np.lib.format.descr_to_dtype(dtype) == e[2], "descr", f"{dtype}")
    # reading
    nav = c["nav"]
    kw = {} if nav is None else {"navigation_axes": nav}
    keep = [i for i, s in enumerate(a.shape) if s > 1]
    expected = a.squeeze()
    for lazy in (False, True):
        r = ctx.sut(file_reader, p, lazy=lazy, **kw, **({"chunks": c["chunks"]} if lazy else {}))
        ctx.expect(len(r) == 1, "count")
        r = r[0]
        sigs.check_structure(ctx, r)
        d = r["data"]
        ctx.expect(hasattr(d, "__dask_keys__") == lazy, "lazy-type", f"{type(d)}")
        ctx.expect(d.dtype == a.dtype and d.shape == expected.shape, "declared", f"{d.dtype} {d.shape}")
        d = np.asarray(sigs.compute(d))
        ctx.expect(same(d, expected), "data", lambda: f"lazy={lazy}: {gen.short(d)} expected {gen.short(expected)}")
        sigs.check_axes(
            ctx,
            r["axes"],
            [dict(name="", scale=1.0, offset=0.0, units="", size=a.shape[i], navigate=i in (nav or [])) for i in keep],
        )
    ctx.expect(open(p, "rb").read() == raw, "file-modified")


PROP = Prop(
    "C12",
    "Random arrays of 1-5 dimensions: every numeric dtype and byte order, bool, half precision, strings, dates, RGB "
    "and structured dtypes with unicode field names and sub-arrays; C, Fortran, strided and reversed memory; npy "
    "versions 1-3; navigation axes; chunkings. The reference is numpy.lib.format and numpy.load. Non-trivial: more "
    "than one element.",
    [Sub("npy", cases, check, quick=1500, shards=4)],
)

"""C44: conversion between RGB(A) structured arrays and arrays with colour channels."""

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub


@st.composite
def cases(draw):
    return dict(
        shape=draw(gen.shapes(0, 4, 0, 5) | gen.shapes(1, 4, 1, 5)),
        bits=draw(st.sampled_from([8, 16])),
        n=draw(st.sampled_from([3, 4])),
        seed=draw(gen.seeds),
        mode=draw(st.sampled_from(["random", "random", "constant", "max"])),
        order=draw(st.sampled_from("<<>")),
        layout=draw(st.sampled_from(["C", "F", "reversed", "strided", "channels first", "read-only"])),
        dask=draw(st.booleans()),
        chunk=draw(st.integers(1, 4)),
    )


def channels(c):
    dt = f"u{c['bits'] // 8}"
    shape = tuple(c["shape"]) + (c["n"],)
    if c["mode"] == "random":
        return np.random.default_rng(c["seed"]).integers(0, 2 ** c["bits"], shape, dtype=dt)
    return np.full(shape, 2 ** c["bits"] - 1 if c["mode"] == "max" else c["seed"] % 256, dt)


def lay(a, how):
    if how == "channels first":
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(a, -1, 0)), 0, -1)
    if how == "read-only":
        a = a.copy()
        a.flags.writeable = False
        return a
    return gen.relayout(a, how)


def dask_of(a, c):
    return sigs.lazy_of(a, chunks=tuple(max(1, min(s, c["chunk"])) for s in a.shape)) if c["dask"] and 0 not in a.shape and a.ndim else a


def check(c, ctx):
    from rsciio.utils import rgb

    a = channels(c)
    name = ("rgb" if c["n"] == 3 else "rgba") + str(c["bits"])
    dt = rgb.RGB_DTYPES[name]
    ctx.expect(dt.names == tuple("RGBA"[: c["n"]]) and all(dt[n] == a.dtype for n in dt.names), "dtypes", f"{name} {dt}")
    ref = np.zeros(c["shape"], dt)
    for i, n in enumerate("RGBA"[: c["n"]]):
        ref[n] = a[..., i]
    ctx.label(name, c["layout"], "dask" if c["dask"] else "numpy", f"nd{len(c['shape'])}")
    ctx.nontrivial(a.size > 4 and c["mode"] == "random")

    # channels -> structured
    given = lay(a.astype(a.dtype.newbyteorder(c["order"])), c["layout"])
    arg = dask_of(given, c)
    before = given.copy()
    s = ctx.sut(rgb.regular_array2rgbx, arg)
    ctx.expect(s.dtype == dt, "structured-dtype", f"{s.dtype} expected {dt}")
    ctx.expect(s.shape == ref.shape, "structured-shape", f"{s.shape} expected {ref.shape}")
    v = sigs.compute(s)
    ctx.expect(v.dtype == dt and v.shape == ref.shape and all(np.array_equal(v[n], ref[n]) for n in dt.names), "structured", lambda: f"{v} expected {ref}")
    ctx.expect(np.array_equal(given, before), "changed", "regular_array2rgbx changed its input")
    for x in (s, ref):
        got = rgb.is_rgb(x), rgb.is_rgba(x), rgb.is_rgbx(x)
        ctx.expect(got == (c["n"] == 3, c["n"] == 4, True), "is_rgb", f"{got}")
    for x in (arg, a):
        ctx.expect(not (rgb.is_rgb(x) or rgb.is_rgba(x) or rgb.is_rgbx(x)), "is_rgb", "array with channels taken for a structured one")

    # structured -> channels
    given = gen.relayout(ref, c["layout"]) if ref.ndim and c["layout"] in ("F", "reversed", "strided") else lay(ref, "read-only") if c["layout"] == "read-only" else ref
    arg = dask_of(given, c)
    before = given.copy()
    r = ctx.sut(rgb.rgbx2regular_array, arg, show_progressbar=False)
    ctx.expect(r.dtype == a.dtype and r.shape == a.shape, "regular-shape", f"{r.dtype} {r.shape} expected {a.dtype} {a.shape}")
    ctx.expect(np.array_equal(sigs.compute(r), a), "regular", lambda: f"{r} expected {a}")
    p = sigs.compute(ctx.sut(rgb.rgbx2regular_array, arg, plot_friendly=True, show_progressbar=False))
    if c["bits"] == 8:
        ctx.expect(p.dtype == a.dtype and np.array_equal(p, a), "plot-friendly", lambda: f"{p} expected {a}")
    else:
        ctx.expect(p.dtype.kind == "f" and p.shape == a.shape and np.allclose(p, a / 65535.0, rtol=1e-12, atol=0), "plot-friendly", lambda: f"{p} expected {a / 65535}")
    ctx.expect(given.tobytes() == before.tobytes(), "changed", "rgbx2regular_array changed its input")
    # arrays which aren't RGB are given back
    x = ctx.sut(rgb.rgbx2regular_array, a, show_progressbar=False)
    ctx.expect(np.array_equal(x, a) and x.dtype == a.dtype, "other", "array with channels was changed")

    # what can't be converted is refused
    for bad in (np.zeros(tuple(c["shape"]) + (2,), "u1"), np.zeros(tuple(c["shape"]) + (5,), "u2"), a.astype("i4"), a.astype("f4")):
        try:
            z = rgb.regular_array2rgbx(bad)
        except ValueError:
            continue
        ctx.expect(False, "accepted", f"{bad.dtype} {bad.shape} gave {z.dtype} {z.shape}")


PROP = Prop("C44", "random values of more than four entries", [Sub("inverse", cases, check, quick=1500, shards=4)])

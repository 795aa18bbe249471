"""C40: signals of HyperSpy saved and loaded by HyperSpy."""

import logging
import os
import warnings

import hypothesis.strategies as st
import numpy as np

from .. import gen
from ..core import Prop, Reject, Sub

ANY = [(s, n) for s in range(0, 4) for n in range(0, 4) if 1 <= s + n <= 4]
ALL = ("name", "scale", "offset", "units")
# format: dimensions (signal, navigation), dtypes, calibration kept, signal dimension kept, lazy reading, lazy writing
FORMATS = {
    "hspy": dict(dims=ANY, dt=gen.INTS + gen.FLOATS + gen.COMPLEX + ["?"], keep=ALL, sd=True, lazy=True, write_lazy=True),
    "zspy": dict(dims=ANY, dt=gen.INTS + gen.FLOATS + gen.COMPLEX + ["?"], keep=ALL, sd=True, lazy=True, write_lazy=True),
    "nxs": dict(dims=[d for d in ANY if d[0] in (1, 2)], dt=gen.INTS + gen.FLOATS, keep=ALL, sd=True, lazy=True, write_lazy=True),
    "emd": dict(dims=[d for d in ANY if d[0]], dt=["u1", "u2", "i2", "i4", "f4", "f8"], keep=ALL, sd=False, lazy=True, write_lazy=True),
    "rpl": dict(dims=[(1, 0), (1, 1), (1, 2), (2, 0), (2, 1)], dt=["u1", "u2", "i4", "i8", "f4", "f8"], keep=ALL, sd=True, lazy=True, write_lazy=True),
    "msa": dict(dims=[(1, 0)], dt=["f4", "f8", "u2"], keep=ALL, sd=True, lazy=False, write_lazy=True),
    "unf": dict(dims=[(1, 0), (1, 1), (1, 2), (2, 0), (2, 1)], dt=["i1", "i2", "i4", "f4", "c8"], keep=("scale", "offset", "units"), sd=False, lazy=True, write_lazy=True),
    "tif": dict(dims=[(2, 0), (2, 1)], dt=["u1", "u2", "i2", "f4", "f8"], keep=("scale", "offset", "units"), sd=True, lazy=True, write_lazy=True),
    "mrcz": dict(dims=[(2, 0), (2, 1), (3, 0)], dt=["i1", "i2", "u2", "f4", "c8"], keep=("scale",), sd=False, lazy=False, write_lazy=True),
    "sur": dict(dims=[(1, 0), (1, 1), (2, 0), (1, 2), (2, 1)], dt=["i2", "i4", "u1"], keep=ALL, sd=True, lazy=False, write_lazy=True),
    "prz": dict(dims=[(1, 0), (2, 0), (2, 1), (2, 2)], dt=["u1", "u2", "i4", "f4", "f8", "c8"], keep=(), sd=False, lazy=False, write_lazy=True),
    "npy": dict(dims=ANY, dt=gen.INTS + gen.FLOATS + gen.COMPLEX + ["?"], keep=(), sd=False, lazy=True, write_lazy=False),
    "png": dict(dims=[(2, 0), (0, 2)], dt=["u1"], keep=(), sd=False, lazy=True, write_lazy=True),
    "blo": dict(dims=[(2, 0), (2, 1), (2, 2)], dt=["u1"], keep=("scale",), sd=True, lazy=True, write_lazy=True, square=True),
    "tvips": dict(dims=[(2, 1), (2, 2)], dt=["u1", "u2"], keep=(), sd=True, lazy=True, write_lazy=True, square=True),
}
OPS = ["transpose", "isig", "inav", "reverse", "lazy", "swap", "copy", "rename", "float"]


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(sorted(FORMATS)))
    F = FORMATS[fmt]
    sd, nd = draw(st.sampled_from(F["dims"]))
    n = sd + nd
    shape = tuple(draw(st.integers(2, 6 if n < 4 else 4)) for _ in range(n))
    if F.get("square"):
        shape = shape[:nd] + (shape[-1],) * 2
    ops = draw(st.lists(st.sampled_from(["isig", "inav", "transpose", "reverse", "lazy", "copy"]), max_size=4))
    return dict(
        fmt=fmt,
        dims=(sd, nd),
        shape=shape,
        dt=draw(st.sampled_from(F["dt"])),
        mode=draw(gen.modes),
        seed=draw(gen.seeds),
        axes=[
            dict(
                name=draw(st.sampled_from(["a", "b", "my axis", "Q", "été"])) + str(i),
                scale=draw(st.sampled_from([1.0, 0.5, 0.02, 3.75, 12.5])),
                offset=draw(st.sampled_from([0.0, -2.5, 10.0, 0.125, 1000.0])),
            )
            for i in range(n)
        ],
        units=draw(st.sampled_from(["nm", "nm", "µm", "eV"])),
        title=draw(st.sampled_from(["", "A title", "été (1)"])),
        ops=ops,
        lazy=F["lazy"] and draw(st.booleans()),
        axis=draw(st.sampled_from([None, None, "data", "functional"])) if fmt in ("hspy", "zspy") else None,
        note=draw(st.sampled_from([None, "a note", 3, 2.5, [1, 2], True])),
        again=draw(st.integers(0, 3)) == 0,
    )


def build(f):
    """The signal, and its data computed with numpy alone."""
    import hyperspy.api as hs

    data = gen.make_array((f["dt"], f["shape"], f["mode"], f["seed"]))
    if f["fmt"] in ("prz", "sur", "msa", "mrcz", "unf", "tif", "png", "npy"):
        data = np.where(np.isfinite(data), data, 1).astype(data.dtype) if data.dtype.kind in "fc" else data
    sd, nd = f["dims"]
    axes = [dict(a, size=k, units="cm" if f["fmt"] == "blo" and i >= nd else f["units"], navigate=i < nd) for i, (a, k) in enumerate(zip(f["axes"], f["shape"]))]
    s = hs.signals.BaseSignal(data.copy(), axes=[dict(a) for a in axes])
    s.metadata.General.title = f["title"]
    if f["note"] is not None:
        s.metadata.set_item("Sample.note", f["note"])
        s.original_metadata.set_item("deep.er.note", f["note"])
    square = FORMATS[f["fmt"]].get("square")
    lazy = False
    for op in f["ops"]:
        if op == "transpose" and sd and nd > 1:
            # the navigation axes in the other order
            s = s.transpose(signal_axes=list(s.axes_manager.signal_axes), navigation_axes=list(s.axes_manager.navigation_axes)[::-1])
            order = list(range(nd))[::-1] + list(range(nd, nd + sd))
            data = data.transpose(order)
            axes = [axes[i] for i in order]
        elif op == "isig" and sd and not square and all(k > 2 for k in data.shape[nd:]):
            s = s.isig[(slice(1, None),) * sd]
            data = data[(slice(None),) * nd + (slice(1, None),) * sd]
            axes = axes[:nd] + [shifted(a, 1) for a in axes[nd:]]
        elif op == "inav" and nd and all(k > 2 for k in data.shape[:nd]):
            s = s.inav[(slice(0, -1),) * nd]
            data = data[(slice(0, -1),) * nd]
            axes = [dict(a, size=a["size"] - 1) for a in axes[:nd]] + axes[nd:]
        elif op == "reverse" and nd and not f["axis"]:
            s = s.inav[::2]  # the fastest navigation axis
            data = data[(slice(None),) * (nd - 1) + (slice(None, None, 2),)]
            if data.shape[nd - 1] < 2:
                raise Reject()
            axes = axes[: nd - 1] + [dict(axes[nd - 1], size=data.shape[nd - 1], scale=axes[nd - 1]["scale"] * 2)] + axes[nd:]
        elif op == "lazy" and FORMATS[f["fmt"]]["write_lazy"]:
            s = s.as_lazy()
            lazy = True
        elif op == "copy" and not lazy:
            s = s.deepcopy()
    if f["axis"] == "data":
        s.axes_manager._axes[-1].convert_to_non_uniform_axis()
        s.axes_manager._axes[-1].axis = np.sqrt(np.arange(data.shape[-1]) + 1.0)
    elif f["axis"] == "functional":
        s.axes_manager._axes[-1].convert_to_functional_data_axis(expression="a * x ** 2 + b", a=2.0, b=1.0)
    return s, data, axes, lazy


def shifted(a, n):
    return dict(a, size=a["size"] - n, offset=a["offset"] + n * a["scale"])


def load(ctx, path, f, **kw):
    import hyperspy.api as hs

    if f["fmt"] == "tvips":
        kw["scan_shape"] = f["_scan"]
    r = ctx.sut(hs.load, path, **kw)
    return r if isinstance(r, list) else [r]


def check(f, ctx):
    logging.disable(logging.CRITICAL)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        run(f, ctx)


def run(f, ctx):
    import hyperspy.api as hs

    hs.preferences.General.show_progressbar = False
    fmt = f["fmt"]
    F = FORMATS[fmt]
    s, data, axes, lazy = build(f)
    sd, nd = f["dims"]
    path = ctx.path("x_000.tvips" if fmt == "tvips" else "x." + fmt)
    kw = {}
    if fmt == "tvips":
        kw["max_file_size"] = None
    ctx.sut(s.save, path, **kw)
    if f["again"]:
        ctx.sut(s.save, path, overwrite=True, **kw)
    f = dict(f, _scan=data.shape[:nd])
    r = load(ctx, path, f, lazy=True) if f["lazy"] else load(ctx, path, f)
    got = r[0]
    ctx.expect(bool(got._lazy) == bool(f["lazy"]), "lazy", f"{got} for lazy={f['lazy']}")
    if fmt != "nxs":
        ctx.expect(len(r) == 1, "number of signals", r)
    a = np.asarray(got.data)
    exp = data
    if fmt in ("sur", "msa", "unf"):
        ctx.expect(a.shape == exp.shape and np.allclose(a.astype(complex), exp.astype(complex), rtol=6e-6, atol=5.1e-7 if fmt == "msa" else 0), "data", lambda: f"{gen.short(a)} for {gen.short(exp)}")
    else:
        ctx.expect(a.shape == exp.shape, "shape", f"{a.shape} for {exp.shape}")
        ctx.expect(np.array_equal(a, exp, equal_nan=exp.dtype.kind in "fc"), "data", lambda: f"{gen.short(a)} for {gen.short(exp)}")
        if fmt not in ("mrcz",):
            ctx.expect(a.dtype.newbyteorder("=") == exp.dtype.newbyteorder("="), "dtype", f"{a.dtype} for {exp.dtype}")
    am = got.axes_manager
    ctx.expect(am.signal_dimension == sd and am.navigation_dimension == nd or not F["sd"], "dimensions of signal and navigation", f"{am} for {f['dims']}")
    last = len(axes) - 1
    for i, (g, e) in enumerate(zip(am._axes, axes)):
        ctx.expect(g.size == e["size"], "size", f"{g} for {e}")
        if f["axis"] and i == last:
            ctx.expect(type(g) is type(s.axes_manager._axes[i]), "type of axis", f"{g} for {s.axes_manager._axes[i]}")
            ctx.expect(np.allclose(g.axis, s.axes_manager._axes[i].axis, rtol=1e-12), "values of the axis", f"{g.axis} for {s.axes_manager._axes[i].axis}")
            continue
        for k in F["keep"]:
            v = getattr(g, k)
            if fmt == "tif" and k == "offset":
                ok = gen.close(v, e[k], 1e-5, 1e-5 * e["scale"])
            elif fmt == "mrcz":
                ok = f["units"] != "nm" or gen.close(v, e[k], 1e-5)
            elif fmt == "blo":
                ok = f["units"] != "nm" or i >= nd or gen.close(v, e[k], 1e-5)
            elif k in ("scale", "offset"):
                ok = gen.close(v, e[k], 1e-5, 1e-5 * abs(e["scale"]))
            else:
                ok = str(v) == str(e[k])
            ctx.expect(ok, f"axis {k}", f"{g!r} {v!r} for {e}")
    if fmt in ("hspy", "zspy"):
        ctx.expect(type(got).__name__.replace("Lazy", "").replace("Base", "") == cls(s, sd, data), "class", f"{type(got).__name__} for {cls(s, sd, data)}")
        d = gen.deep_diff(clean(s.metadata.as_dictionary()), clean(got.metadata.as_dictionary()))
        ctx.expect(not d, "metadata", d)
        d = gen.deep_diff(s.original_metadata.as_dictionary(), got.original_metadata.as_dictionary())
        ctx.expect(not d, "original metadata", d)
    elif fmt in ("rpl", "nxs"):
        ctx.expect(got.metadata.General.title == f["title"] or not f["title"], "title", f"{got.metadata.General.title!r} for {f['title']!r}")
    if got._lazy:
        try:
            got.close_file()
        except Exception:
            pass
    ctx.label(fmt, *["lazy " + fmt] * f["lazy"], *["op " + o for o in f["ops"]])
    ctx.nontrivial(bool(f["ops"]) or nd + sd > 2)


def cls(s, sd, data):
    """Class HyperSpy gives to a signal of unknown type."""
    base = {1: "Signal1D", 2: "Signal2D"}.get(sd, "Signal")
    return ("Complex" + base) if data.dtype.kind == "c" else base


def clean(d):
    d = dict(d)
    g = dict(d.get("General", {}))
    for k in ("FileIO", "original_filename"):
        g.pop(k, None)
    d["General"] = g
    d.pop("_HyperSpy", None)
    return d


PROP = Prop("C40", "a signal of three or more dimensions, or one resulting from operations, was saved and loaded", [Sub("formats", cases, check, quick=1500, shards=8)])

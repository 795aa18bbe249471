"""C17: USID files (run with the interpreter which has pyUSID)."""

import os

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

PYTHON = "/opt/venv-usid/bin/python"
NAMES = ["X", "Y", "Z", "Bias", "Frequency", "time of flight", "a-b", "Step_2", "é"]
DTYPES = ["<f4", "<f8", "<i2", "<u1", "<i4", "<u8", "<c8", "<c16"]


@st.composite
def axes(draw, n, names, single):
    out = []
    for i in range(n):
        name = draw(st.sampled_from(names + [""] * (not single)))
        if name:
            names.remove(name)
        out.append(
            dict(
                name=name,
                units=draw(st.sampled_from(["nm", "um", "V", "kHz", "1/nm", "", "a. u."])),
                scale=draw(st.sampled_from([1.0, 0.5, 2.0, -1.0, 0.25, 30.0, 1e-3, -0.5])),
                offset=draw(st.sampled_from([0.0, 1.0, -4.0, 0.25, 300.0])),
                size=draw(st.integers(1 if draw(st.integers(0, 5)) == 0 else 2, 5)),
            )
        )
    for a in out:
        if abs(a["scale"]) < 0.1 and a["offset"] > 1:
            a["scale"] = 30.0  # values are stored as 32 bit floats
    while n > 1 and np.prod([a["size"] for a in out]) <= n:
        # pyUSID distinguishes dimensions and values by their number
        out[0]["size"] += 1
    return out


@st.composite
def signal(draw):
    names = list(NAMES)
    nav = draw(axes(draw(st.integers(0, 3)), names, False))
    sig = draw(axes(draw(st.integers(0 if nav else 1, 2)), names, False))
    return dict(
        nav=nav,
        sig=sig,
        dtype=draw(st.sampled_from(DTYPES)),
        seed=draw(gen.seeds),
        lazy=draw(st.booleans()),
        params=draw(
            st.dictionaries(
                st.sampled_from(["alpha", "beta", "gamma delta", "Acq_2"]),
                st.one_of(st.integers(-(2**31), 2**31), st.floats(-1e9, 1e9), st.text("abcdé 01", min_size=1, max_size=8), st.booleans(), st.lists(st.integers(0, 9), min_size=2, max_size=4))
                | st.dictionaries(st.sampled_from(["one", "two"]), st.integers(0, 99), min_size=1),
                max_size=3,
            )
        ),
        original=draw(st.dictionaries(st.sampled_from(["foo", "bar"]), st.integers(0, 99) | st.dictionaries(st.just("sub"), st.floats(0, 9), min_size=1), max_size=2)),
    )


@st.composite
def histories(draw):
    return dict(
        signals=draw(st.lists(signal(), min_size=1, max_size=3)),
        lazy=draw(st.booleans()),
        pick=draw(st.none() | st.integers(0, 2)),
    )


def values(s):
    shape = [a["size"] for a in s["nav"] + s["sig"]]
    return gen.make_array((s["dtype"], tuple(shape), "random", s["seed"]))


def flat(d, parent=""):
    out = {}
    for k, v in d.items():
        k = f"{parent}-{k}" if parent else k
        if isinstance(v, dict):
            out.update(flat(v, k))
        else:
            out[k] = v
    return out


def same(a, b):
    if isinstance(b, (list, tuple)):
        return list(np.asarray(a).ravel()) == list(b)
    return a == b or (isinstance(b, float) and gen.close(a, b))


def check_axes(ctx, got, expected):
    expected = [a for a in expected if a["size"] > 1]
    ctx.expect(len(got) == len(expected), "number of axes", f"{got}")
    for g, e in zip(got, expected):
        ctx.expect(g["size"] == e["size"], "axis size", f"{g} instead of {e}")
        ctx.expect(not e["name"] or g["name"] == e["name"], "axis name", f"{g} instead of {e}")
        ctx.expect(g["units"] == (e["units"] or "a. u."), "axis units", f"{g} instead of {e}")
        # values are stored as 32 bit floats
        tol = 1e-5 * (abs(e["offset"]) + abs(e["scale"]) * e["size"])
        ctx.expect(abs(g["offset"] - e["offset"]) <= tol and abs(g["scale"] - e["scale"]) <= tol, "axis calibration", f"{g} instead of {e}")


def squeezed(a):
    return a.reshape([n for n in a.shape if n > 1])


def check(c, ctx):
    from rsciio.usid import file_reader, file_writer

    p = ctx.path("a.h5")
    arrays = []
    for s in c["signals"]:
        a = values(s)
        arrays.append(a)
        ax = []
        for i, (x, nav) in enumerate([(x, True) for x in s["nav"]] + [(x, False) for x in s["sig"]]):
            ax.append(sigs.axis(i, x["size"], x["name"], x["units"], x["scale"], x["offset"], nav))
        data = sigs.lazy_of(a, chunks=-1 if a.size < 3 else "auto") if s["lazy"] else a
        md = {"General": {"title": "t"}, "Signal": {"signal_type": ""}, **s["params"]}
        d = sigs.signal(data, ax, md, s["original"])
        ctx.sut(file_writer, p, d)
    kw = {}
    n = len(c["signals"])
    which = list(range(n))
    if c["pick"] is not None and c["pick"] < n:
        which = [c["pick"]]
        kw["dataset_path"] = f"/Measurement_{c['pick']:03d}/Channel_000/Raw_Data"
    rs = ctx.sut(file_reader, p, lazy=c["lazy"], **kw)
    ctx.nontrivial(any(a.size > 1 for a in arrays))
    ctx.label(f"{n} signals", "lazy" if c["lazy"] else "eager", "picked" if kw else "all")
    ctx.expect(len(rs) == len(which), "number of signals", f"{len(rs)} instead of {len(which)}")
    for r, k in zip(rs, which):
        s, a = c["signals"][k], arrays[k]
        got = r["data"]
        ctx.expect(hasattr(got, "__dask_keys__") == c["lazy"], "lazy", f"{type(got)}")
        got = np.asarray(sigs.compute(got))
        want = squeezed(a)
        ctx.expect(got.dtype == want.dtype and gen.arrays_equal(got, want), "data", lambda: f"{gen.short(got)} instead of {gen.short(want)}")
        check_axes(ctx, r["axes"], s["nav"] + s["sig"])
        om = r["original_metadata"]
        ctx.expect(om["dataset_path"] == f"/Measurement_{k:03d}/Channel_000/Raw_Data", "path", f"{om['dataset_path']}")
        ctx.expect(r["metadata"]["General"]["title"] == "Raw_Data", "title", f"{r['metadata']}")
        ctx.expect(os.path.basename(r["metadata"]["General"]["original_filename"]) == "a.h5", "original_filename", f"{r['metadata']}")
        par = om["parameters"]
        for key, v in (flat(s["params"]) | flat(s["original"], "Original")).items():
            ctx.expect(key in par and same(par[key], v), "parameters", f"{key}: {par.get(key)!r} instead of {v!r} in {sorted(par)}")
    if c["lazy"]:
        for r in rs:
            del r


# ---------------------------------------------------------------- files of other software


@st.composite
def foreign(draw):
    names = list(NAMES)
    pos = draw(axes(draw(st.integers(0, 2)), names, True))
    spec = draw(axes(draw(st.integers(0 if pos else 1, 3)), names, True))
    for a in pos + spec:
        a["units"] = a["units"] or "V"
    uneven = None
    if draw(st.integers(0, 3)) == 0:
        long = [i for i, a in enumerate(pos + spec) if a["size"] > 2]
        if long:
            uneven = draw(st.sampled_from(long))
    return dict(
        pos=pos,
        spec=spec,
        uneven=uneven,
        ignore=draw(st.sampled_from([None, True, False])),
        dtype=draw(st.sampled_from(DTYPES + ["compound"] * 3)),
        seed=draw(gen.seeds),
        quantity=draw(st.sampled_from(["Current", "Deflection", "piezo response"])),
        units=draw(st.sampled_from(["nA", "V", "a.u."])),
        slow_first=draw(st.booleans()),
        fields=draw(st.lists(st.sampled_from(["amp (V)", "phase [rad]", "q", "current (nA)"]), min_size=2, max_size=3, unique=True)),
        lazy=draw(st.booleans()),
    )


def check_foreign(c, ctx):
    import h5py
    import pyUSID as usid

    from rsciio.usid import file_reader

    p = ctx.path("a.h5")
    shape = [a["size"] for a in c["pos"] + c["spec"]]
    if c["dtype"] == "compound":
        dt = np.dtype([(n, "<f4") for n in c["fields"]])
        a = np.zeros(shape, dt)
        for i, n in enumerate(c["fields"]):
            a[n] = gen.make_array(("<f4", tuple(shape), "random", c["seed"] + i))
    else:
        a = gen.make_array((c["dtype"], tuple(shape), "random", c["seed"]))

    def dims(axes, start):
        out = []
        for i, x in enumerate(axes, start):
            v = x["offset"] + x["scale"] * np.arange(x["size"])
            if i == c["uneven"]:
                v = x["offset"] + abs(x["scale"]) * np.arange(x["size"]) ** 2
            out.append(usid.Dimension(x["name"], x["units"], v))
        if not out:
            out = [usid.Dimension("arb", "a.u.", 1)]
        return out if c["slow_first"] else out[::-1]

    usid.NumpyTranslator().translate(
        p, "Raw_Data", a.reshape(int(np.prod(shape[: len(c["pos"])])), -1), c["quantity"], c["units"], dims(c["pos"], 0), dims(c["spec"], len(c["pos"])), slow_to_fast=c["slow_first"]
    )
    kw = {} if c["ignore"] is None else {"ignore_non_uniform_dims": c["ignore"]}
    if c["uneven"] is not None and c["ignore"] is False:
        ctx.started = True
        try:
            file_reader(p, lazy=c["lazy"], **kw)
        except ValueError:
            return
        ctx.expect(False, "non uniform dimension accepted", f"{c}")
    rs = ctx.sut(file_reader, p, lazy=c["lazy"], **kw)
    ctx.nontrivial(a.size > 1)
    ctx.label("compound" if c["dtype"] == "compound" else "plain", "slow first" if c["slow_first"] else "fast first", "uneven" if c["uneven"] is not None else "even")
    fields = c["fields"] if c["dtype"] == "compound" else [None]
    ctx.expect(len(rs) == len(fields), "number of signals", f"{len(rs)}")
    for r, f in zip(rs, fields):
        want = a if f is None else a[f]
        # the order of the dimensions is free, among the positions and the others
        names = [x["name"] for x in c["pos"] + c["spec"]]
        order = [names.index(x["name"]) for x in r["axes"] if x["name"] in names]
        ctx.expect(len(order) == len(r["axes"]), "axis name", f"{r['axes']}")
        order += [i for i in range(len(names)) if shape[i] == 1]
        ctx.expect(sorted(order) == list(range(len(names))), "axes", f"{r['axes']}")
        kind = [i >= len(c["pos"]) for i in order if shape[i] > 1]
        ctx.expect(kind == sorted(kind), "positions first", f"{r['axes']}")
        want = squeezed(want.transpose(order))
        got = np.asarray(sigs.compute(r["data"]))
        ctx.expect(got.dtype == want.dtype and gen.arrays_equal(got, want), "data", lambda: f"{gen.short(got)} instead of {gen.short(want)}")
        e = []
        for i in order:
            x = (c["pos"] + c["spec"])[i]
            e.append(dict(x, scale=1, offset=0) if i == c["uneven"] else x)
        check_axes(ctx, r["axes"], e)
        om = r["original_metadata"]
        quantity, units = c["quantity"], c["units"]
        if f is not None:
            ctx.expect(r["metadata"]["Signal"]["signal_type"] == quantity, "signal type", f"{r['metadata']}")
            quantity, _, units = f.replace("[", "(").partition(" (")
            units = units.strip("])")
        ctx.expect((om["quantity"], om["units"]) == (quantity, units), "quantity", f"{om['quantity']} {om['units']} instead of {quantity} {units}")
    _ = h5py


PROP = Prop(
    "C17",
    "data of several elements",
    [
        Sub("histories", histories, check, quick=200, shards=4, python=PYTHON),
        Sub("foreign", foreign, check_foreign, quick=200, shards=3, python=PYTHON),
    ],
)

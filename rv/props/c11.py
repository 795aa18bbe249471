"""C11: MRCZ written and read through the mrcz library."""

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

DT = ["i1", "i2", "u2", "i4", "u4", "f4", "c8", "f8", "c16"]
CAST = {"f8": "f4", "c16": "c8"}
FACTOR = {"nm": 1.0, "Å": 0.1, "µm": 1e3, "pm": 1e-3, "1/nm": 1.0, "": 1.0, None: 1.0}
sc = st.one_of(gen.scales.map(abs).filter(lambda v: 1e-9 < v < 1e9), st.floats(1e-4, 1e4))
leaf = st.one_of(st.booleans(), st.integers(-(2**53), 2**53), gen.floats(-1e9, 1e9), gen.text(max_size=8), st.none())
key = gen.text(min_size=1, max_size=8, ascii_only=True).map(lambda s: "k" + "".join(c for c in s if c.isalnum()))
tree = st.dictionaries(key, st.one_of(leaf, st.lists(leaf, max_size=3), st.dictionaries(key, leaf, max_size=3)), max_size=3)


@st.composite
def cases(draw):
    shape = draw(gen.shapes(2, 3, 1, 9))
    return dict(
        data=(draw(st.sampled_from(DT)), shape, draw(gen.modes), draw(gen.seeds)),
        order=draw(st.sampled_from("<>")),
        layout=draw(st.sampled_from(["C", "F", "lazy", "strided"])),
        units=draw(st.sampled_from(list(FACTOR))),
        scales=[draw(sc) for _ in shape],
        endianness=draw(st.sampled_from("<>")),
        do_async=draw(st.booleans()),
        kev=draw(st.one_of(st.none(), st.floats(0.1, 1e3))),
        gain=draw(st.one_of(st.none(), st.floats(1e-3, 1e3))),
        title=draw(gen.text(max_size=12)),
        tree=draw(tree),
        again=draw(st.integers(0, 4)) == 0,
        ext=draw(st.sampled_from(["mrcz", "mrc", "MRC"])),
    )


def wait():
    import mrcz.ioMRC

    mrcz.ioMRC._asyncExecutor.submit(lambda: None).result()


def check(case, ctx):
    from rsciio.mrcz import file_reader, file_writer

    c = case
    dt, shape, mode, seed = c["data"]
    data = gen.make_array(c["data"]).astype(np.dtype(dt).newbyteorder(c["order"]))
    if mode != "nan" and np.dtype(dt).itemsize > 8 // (1 + (dt == "f8")):
        data = np.nan_to_num(data, posinf=1, neginf=-1)
        m = np.abs(data).max(initial=0)
        if m > 1e30:
            data = data / m
    given = data
    if c["layout"] == "F":
        given = np.asfortranarray(data)
    elif c["layout"] == "strided":
        big = np.zeros(tuple(2 * s for s in shape), data.dtype)
        big[tuple(slice(None, None, 2) for _ in shape)] = data
        given = big[tuple(slice(None, None, 2) for _ in shape)]
    elif c["layout"] == "lazy":
        given = sigs.lazy_of(data)
    nd = data.ndim
    axes = [sigs.axis(i, s, name=n, units=c["units"], scale=x, navigate=i < nd - 2) for i, (s, n, x) in enumerate(zip(shape, "zyx"[3 - nd :], c["scales"]))]
    md = {"General": {"title": c["title"]}, "Signal": {"signal_type": ""}}
    if c["kev"] is not None:
        md["Acquisition_instrument"] = {"TEM": {"beam_energy": c["kev"]}}
    if c["gain"] is not None:
        md["Signal"]["Noise_properties"] = {"Variance_linear_model": {"gain_factor": c["gain"]}}
    md["Tree"] = c["tree"]
    p = ctx.path("t." + c["ext"])
    if c["again"]:  # an older and larger file of the same name
        old = np.ones((4, 20, 20), "f4")
        ctx.sut(file_writer, p, sigs.signal(old, [sigs.axis(i, s) for i, s in enumerate(old.shape)]))
    ctx.label(dt, f"nd{nd}", c["layout"], "async" if c["do_async"] else "sync", c["endianness"], str(c["units"]))
    ctx.nontrivial(data.size > 3)
    sig = sigs.signal(given, axes, metadata=md)
    ctx.sut(file_writer, p, sig, endianness=c["endianness"], do_async=c["do_async"])
    wait()
    e = data.astype(CAST.get(dt, dt))
    scales = c["scales"]
    if nd == 3 and shape[0] == 1:
        e, scales = e[0], scales[1:]
    names = ["z", "y", "x"][3 - e.ndim :]
    f = FACTOR[c["units"]]
    for lazy in (False, True):
        r = ctx.sut(file_reader, p, lazy=lazy, endianness=c["endianness"])
        ctx.expect(len(r) == 1, "count")
        r = r[0]
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], e, dtype="value")
        sigs.check_axes(
            ctx,
            r["axes"],
            [dict(name=n, scale=s * f, offset=0.0, units="nm", size=k, navigate=i < e.ndim - 2, _tol=(1e-6, 0)) for i, (n, s, k) in enumerate(zip(names, scales, e.shape))],
        )
        h = r["original_metadata"]["mrcz_header"]
        ctx.expect(gen.close(h["voltage"], c["kev"] or 0.0, 1e-6, 0), "voltage", f"{h['voltage']}")
        ctx.expect(gen.close(h["gain"], 1.0 if c["gain"] is None else c["gain"], 1e-6, 0), "gain", f"{h['gain']}")
        for k in md:
            ctx.expect(r["metadata"].get(k) == md[k], "metadata", f"{k}: {r['metadata'].get(k)!r} expected {md[k]!r}")
        path, fun = r["mapping"]["mrcz_header.voltage"]
        ctx.expect(path == "Acquisition_instrument.TEM.beam_energy" and fun(h["voltage"]) == h["voltage"], "mapping")


def probe_4d(ctx):
    from rsciio.mrcz import file_writer

    data = np.zeros((2, 3, 4, 5), "f4")
    sig = sigs.signal(data, [sigs.axis(i, s, navigate=i < 2) for i, s in enumerate(data.shape)])
    ctx.sut(file_writer, ctx.path("a.mrcz"), sig)


PROP = Prop(
    "C11",
    "Random images and stacks of every dtype MRC can hold (double precision is stored in single precision), byte "
    "orders, memory layouts, dask arrays, units, scales over 8 decades, JSON metadata trees, endianness, synchronous "
    "and asynchronous writing, new files and files replacing a larger one. Non-trivial: more than 3 pixels.",
    [Sub("roundtrip", cases, check, quick=900, shards=4)],
    probes={"K-C11-1": probe_4d},
    assumptions=["compression is not explored: the blosc library is not installed"],
)

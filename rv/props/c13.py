"""C13: Semper unf files, written by rosettasciio or by an independent encoder."""

import datetime
import struct

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

DT = ["i1", "i2", "f4", "c8", "i4", "f2"]
CAST = {"f2": "f4"}
FORM = {"i1": 0, "i2": 1, "f4": 2, "c8": 3, "i4": 4}
UN = ["nm", "µm", "Å", "1/nm", "1 / nm", "s", "", None, "eV", "counts"]
f4 = st.floats(min_value=float(np.float32(-1e6)), max_value=float(np.float32(1e6)), width=32, allow_subnormal=False)
scale = st.one_of(st.sampled_from([1.0, 0.5, 2.0, -1.5]), f4.filter(lambda v: abs(v) > 1e-6))
dates = st.datetimes(min_value=datetime.datetime(1900, 1, 1), max_value=datetime.datetime(2150, 1, 1)).map(lambda d: d.replace(microsecond=0))


def clean(a):
    """Values whose single precision representation is exact and finite."""
    return a


@st.composite
def cases(draw):
    shape = draw(gen.shapes(1, 3, 1, 7))
    if draw(st.integers(0, 12)) == 0:
        shape = shape[:-1] + (draw(st.sampled_from([255, 256, 257, 300, 1025])),)
    if draw(st.integers(0, 25)) == 0:
        # the largest sizes
        shape = [1] * draw(st.integers(1, 3))
        shape[draw(st.integers(0, len(shape) - 1))] = draw(st.sampled_from([4096, 32512, 32767]))
        shape = tuple(shape)
    return dict(
        data=(draw(st.sampled_from(DT)), shape, draw(gen.modes), draw(gen.seeds)),
        order=draw(st.sampled_from("<<>")),
        layout=draw(st.sampled_from(["C", "F", "reversed", "strided"])),
        axes=[dict(units=draw(st.sampled_from(UN)), scale=draw(scale), offset=draw(f4)) for _ in shape],
        nav=draw(st.integers(0, len(shape) - 1)),
        title=draw(st.one_of(gen.text(max_size=40), gen.text(min_size=100, max_size=160, ascii_only=True))),
        when=draw(st.one_of(st.none(), dates)),
        frac=draw(st.booleans()),
        lazy=draw(st.booleans()),
    )


def check(c, ctx):
    from rsciio.semper import file_reader, file_writer

    dt, shape, mode, seed = c["data"]
    if dt == "f2":
        data = (np.arange(int(np.prod(shape))) % 2000).astype("f2").reshape(shape)
    else:
        data = gen.make_array(c["data"])
    data = data.astype(np.dtype(dt).newbyteorder(c["order"]))
    data = gen.relayout(data, c["layout"])
    nd = data.ndim
    axes = [sigs.axis(i, s, name=f"n{i}", navigate=i < c["nav"], **a) for i, (s, a) in enumerate(zip(shape, c["axes"]))]
    md = {"General": {"title": c["title"]}, "Signal": {"signal_type": ""}}
    if c["when"]:
        t = c["when"].time().isoformat() + (".250000" if c["frac"] else "")
        md["General"].update(date=c["when"].date().isoformat(), time=t)
    ctx.label(dt, f"nd{nd}", c["order"], "date" if c["when"] else "no-date")
    ctx.nontrivial(data.size > 3)
    p = ctx.path("a.unf")
    with np.errstate(all="ignore"):
        ctx.sut(file_writer, p, sigs.signal(data, axes, metadata=md))
        rs = [ctx.sut(file_reader, p, lazy=z) for z in (False, True)]
    e = data.astype(CAST.get(dt, dt)).squeeze()
    ea = [
        dict(name="zyx"[3 - nd + i], scale=a["scale"], offset=a["offset"], units=(a["units"] or "").replace(" ", "")[:4], size=s, navigate=False, _tol=(1e-6, 0))
        for i, (a, s) in enumerate(zip(c["axes"], shape))
        if s > 1
    ]
    for lazy, r in zip((False, True), rs):
        ctx.expect(len(r) == 1, "count")
        r = r[0]
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], e, lazy=lazy, dtype="value")
        sigs.check_axes(ctx, r["axes"], ea)
        ctx.expect(r["metadata"]["General"]["title"] == c["title"], "title", f"{r['metadata']['General']['title']!r}")
        om = r["original_metadata"]
        ctx.expect(om["IFORM"] == FORM[CAST.get(dt, dt)], "form", f"{om['IFORM']}")
        for k, n in zip(("ICLAYN", "ICROWN", "ICCOLN"), (1,) * (3 - nd) + tuple(shape)):
            ctx.expect(om[k] == n // 2 + 1, "centre", f"{k} {om[k]} of {shape}")
        for k, n in zip(("NLAY", "NROW", "NCOL"), (1,) * (3 - nd) + tuple(shape)):
            ctx.expect(om.get(k, n) == n, "size", f"{k} {om.get(k)} of {shape}")
        ctx.expect(om["ICLASS"] == {1: 4, 2: 1}.get(nd - c["nav"], 6), "class", f"{om['ICLASS']}")
        if c["when"]:
            g = r["metadata"]["General"]
            ctx.expect((g["date"], g["time"]) == (c["when"].date().isoformat(), c["when"].time().isoformat()), "date-time", f"{g}")


# ------------------------------------------------------------ foreign files


@st.composite
def foreign(draw):
    return dict(
        form=draw(st.integers(0, 4)),
        shape=tuple(draw(st.integers(1, 7)) for _ in range(3)),
        seed=draw(gen.seeds),
        iclass=draw(st.integers(1, 10)),
        version=draw(st.integers(0, 2)),
        label=draw(st.integers(0, 4)) > 0,
        real=draw(st.booleans()),
        fprange=draw(st.booleans()),
        title=draw(gen.text(max_size=60, ascii_only=True)),
        coords=tuple(draw(f4) for _ in range(6)),
        units=tuple(draw(st.sampled_from(["nm", "um", "", "1/nm", "px"])) for _ in range(3)),
        centre=tuple(draw(st.integers(1, 70000)) for _ in range(3)),
        when=draw(dates),
        pad=draw(st.booleans()),
        lazy=draw(st.booleans()),
    )


def rec(b, marker=None):
    n = struct.pack("<i", len(b) if marker is None else marker)
    return n + b + n


def encode(c):
    nz, ny, nx = c["shape"]
    dt = [np.dtype(t) for t in ("i1", "<i2", "<f4", "<c8", "<i4")][c["form"]]
    data = gen.make_array((dt.str, c["shape"], "random", c["seed"]))
    title = c["title"]
    out = rec(struct.pack("<6h", nx, ny, nz, c["iclass"], c["form"], c["version"] * 10000 + 1000 * c["label"] + len(title)))
    if title:
        out += rec(title.encode())
    lo, hi = 1.5, 20.25
    if c["label"]:
        b = [0] * 256  # each "byte" of the label is stored as a 16-bit integer

        def put(first, values):
            for i, v in enumerate(values):
                b[first - 1 + i] = v

        put(1, b"Semper")
        for pos, hpos, v in zip((7, 9, 11, 13, 15, 17), (57, 58, 59, 60, 61, 62), (nx, ny, nz) + c["centre"]):
            put(pos, [v // 256 % 256, v % 256])
            put(hpos, [v // 65536])
        w = c["when"]
        put(19, [c["iclass"], c["form"], 0, w.year - 1900, w.month, w.day, w.hour, w.minute, w.second])
        if c["fprange"]:
            put(28, [255])
            put(29, struct.pack("<2f", lo, hi))
        else:
            s = b"%g,%g" % (lo, hi)
            put(28, [len(s)])
            put(29, s)
        put(63, [1 if c["real"] else 0])
        put(64, [4])
        dx, dy, dz, x0, y0, z0 = c["coords"]
        for pos, v in zip((76, 80, 84, 88, 92, 96), (dz, z0, dy, y0, dx, x0)):
            put(pos, struct.pack("<f", v))
        put(100, [len(title)])
        put(101, title.encode())
        for pos, u in zip((245, 249, 253), c["units"]):
            put(pos, u.encode())
        out += rec(struct.pack("<256h", *b))
    for k in range(nz):
        for j in range(ny):
            row = data[k, j].tobytes()
            if c["form"] == 0 and nx % 2 and c["pad"]:
                row += b"\0"
            out += rec(row)
    return out, data, (lo, hi)


def check_foreign(c, ctx):
    from rsciio.semper import file_reader

    raw, data, (lo, hi) = encode(c)
    p = ctx.path("f.unf")
    with open(p, "wb") as f:
        f.write(raw)
    ctx.label(f"form{c['form']}", "label" if c["label"] else "no-label", "real" if c["real"] else "no-real", "title" if c["title"] else "no-title")
    ctx.nontrivial(data.size > 3)
    r = ctx.sut(file_reader, p, lazy=c["lazy"])
    ctx.expect(len(r) == 1, "count")
    r = r[0]
    sigs.check_structure(ctx, r)
    sigs.check_data(ctx, r["data"], data.squeeze(), lazy=c["lazy"], dtype="value")
    dx, dy, dz, x0, y0, z0 = c["coords"]
    cal = [(dz, z0, 2), (dy, y0, 1), (dx, x0, 0)] if c["label"] and c["real"] else [(1.0, 0.0, i) for i in (2, 1, 0)]
    ea = [
        dict(name="xyz"[i], scale=s, offset=o, units=c["units"][i] if c["label"] else None, size=n, _tol=(1e-6, 0))
        for (s, o, i), n in zip(cal, c["shape"])
        if n > 1
    ]
    sigs.check_axes(ctx, r["axes"], ea)
    ctx.expect(r["metadata"]["General"]["title"] == c["title"], "title", f"{r['metadata']['General']['title']!r}")
    om = r["original_metadata"]
    ctx.expect((om["IFORM"], om["ICLASS"]) == (c["form"], c["iclass"]), "form-class")
    ctx.expect((om["NCOL"], om["NROW"], om["NLAY"]) == c["shape"][::-1], "size")
    ctx.expect(om["IVERSN"] == c["version"] and om["ILABEL"] == int(c["label"]), "flags", f"{om['IVERSN']} {om['ILABEL']}")
    if c["label"]:
        ctx.expect((om["ICCOLN"], om["ICROWN"], om["ICLAYN"]) == c["centre"], "centre", f"{om['ICCOLN'], om['ICROWN'], om['ICLAYN']} expected {c['centre']}")
        g = r["metadata"]["General"]
        ctx.expect((g["date"], g["time"]) == (c["when"].date().isoformat(), c["when"].time().isoformat()), "date-time", f"{g}")
        ctx.expect(om["RANGE"] == "%g,%g" % (lo, hi), "range", f"{om['RANGE']}")
        ctx.expect(om["TITLE"] == c["title"], "label-title")


PROP = Prop(
    "C13",
    "Random 1-3D signals of every form (int8, int16, float, complex, int32; half precision is stored as single), byte "
    "orders, row lengths up to 1025, calibrations, units, titles, dates; and files produced by an encoder written from "
    "the label description (with and without label, title, real coordinates, text or binary range, padded byte rows, "
    "24-bit positions). Non-trivial: more than 3 values.",
    [
        Sub("roundtrip", cases, check, quick=1200, shards=4),
        Sub("foreign", foreign, check_foreign, quick=1200, shards=4),
    ],
)

"""C07: TIFF written by rosettasciio or tifffile."""

import datetime

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Reject, Sub

DT = gen.INTS + gen.FLOATS + gen.COMPLEX + [">u2", ">f4", "b1"]
RGB = ["rgb8", "rgba8", "rgb16", "rgba16"]
UN = ["nm", "µm", "m", "Å", "s", "1/nm", "", None, "eV"]
sc = st.one_of(gen.scales, st.floats(1e-12, 1e-6), st.floats(1e6, 1e9))


def rgb_array(name, shape, seed):
    from rsciio.utils.rgb import RGB_DTYPES

    dt = RGB_DTYPES[name]
    base = gen.make_array((dt.fields["R"][0].str, tuple(shape) + (len(dt.names),), "random", seed))
    return base, np.ascontiguousarray(base).view(dt).reshape(shape)


@st.composite
def cases(draw):
    nav = draw(st.booleans())
    shape = ((draw(st.integers(2, 6)),) if nav else ()) + draw(gen.shapes(2, 2, 1, 12))
    rgb = draw(st.integers(0, 3)) == 0
    if rgb or nav:
        shape = shape[: len(shape) - 2] + tuple(max(2, s) for s in shape[-2:])
    return dict(
        rgb=draw(st.sampled_from(RGB)) if rgb else None,
        data=(draw(st.sampled_from(DT)), shape, draw(gen.modes), draw(gen.seeds)),
        layout=draw(st.sampled_from(["C", "F", "reversed", "strided"])),
        axes=[dict(units=draw(st.sampled_from(UN)), scale=draw(sc), offset=draw(gen.offsets)) for _ in shape],
        export=draw(st.sampled_from([True, True, True, False])),
        opts=draw(st.sampled_from([{}, {}, {"compression": "zlib"}, {"bigtiff": True}, {"byteorder": ">"}, {"compression": "zlib", "predictor": True}, {"rowsperstrip": 2}])),
        extratag=draw(st.one_of(st.none(), gen.text(max_size=20, min_size=1, ascii_only=True).map(str.strip).filter(bool))),
        when=draw(st.one_of(st.none(), st.datetimes(min_value=datetime.datetime(1900, 1, 1), max_value=datetime.datetime(2100, 1, 1)))),
        quantity=draw(st.sampled_from([None, "Counts", "e (a.u.)"])),
        vlm=draw(st.one_of(st.none(), st.tuples(gen.floats(-1e3, 1e3), gen.floats(-1e3, 1e3)))),
    )


def check(case, ctx):
    from rsciio.tiff import file_reader, file_writer

    dt, shape, mode, seed = case["data"]
    opts = dict(case["opts"])
    if case["rgb"]:
        raw, data = rgb_array(case["rgb"], shape, seed)
    else:
        data = gen.make_array(case["data"])
        if np.dtype(dt).kind not in "ui" or np.dtype(dt).itemsize > 4:
            opts.pop("predictor", None)
        data = gen.relayout(data, case["layout"])
    nd = len(shape)
    axes = [sigs.axis(i, s, name=f"n{i}", navigate=i < nd - 2, **a) for i, (s, a) in enumerate(zip(shape, case["axes"]))]
    md = {"General": {"title": "t"}, "Signal": {"signal_type": ""}}
    if case["when"]:
        w = case["when"].replace(microsecond=0)
        md["General"].update(date=w.date().isoformat(), time=w.time().isoformat())
    if case["quantity"]:
        md["Signal"]["quantity"] = case["quantity"]
    if case["vlm"]:
        md["Signal"]["Noise_properties"] = {"Variance_linear_model": {"gain_factor": case["vlm"][0], "gain_offset": case["vlm"][1]}}
    if case["extratag"]:
        opts["extratags"] = [(65000, "s", 1, case["extratag"], False)]
        if not case["export"]:
            opts.pop("extratags")
    p = ctx.path("t.tif")
    ctx.label(case["rgb"] or dt, f"nd{nd}", "export" if case["export"] else "no-export", *case["opts"])
    ctx.nontrivial(data.size > 3)
    ctx.sut(file_writer, p, sigs.signal(data, axes, metadata=md), export_scale=case["export"], **opts)
    names = (["image series"] if nd == 3 else []) + ["height", "width"]
    for lazy in (False, True):
        r = ctx.sut(file_reader, p, lazy=lazy)
        ctx.expect(len(r) == 1, "count", f"{len(r)} signals")
        r = r[0]
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], data, lazy=lazy, dtype="value" if not case["rgb"] else True)
        if case["export"]:
            e = [dict(name=n, scale=a["scale"], offset=a["offset"], size=s, navigate=i < nd - 2) for i, (n, a, s) in enumerate(zip(names, case["axes"], shape))]
            sigs.check_axes(ctx, r["axes"], e)
            for g, a in zip(r["axes"], case["axes"]):
                ctx.expect((g["units"] or "") == (a["units"] or ""), "axis-units", f"{g['units']!r} expected {a['units']!r}")
            if case["quantity"]:
                ctx.expect(sigs.get(r["metadata"], "Signal.quantity") == case["quantity"], "quantity")
            if case["vlm"]:
                v = sigs.get(r["metadata"], "Signal.Noise_properties.Variance_linear_model")
                ctx.expect(v == {"gain_factor": case["vlm"][0], "gain_offset": case["vlm"][1]}, "variance-model", f"{v}")
        else:
            sigs.check_axes(ctx, r["axes"], [dict(scale=1.0, offset=0.0, size=s, navigate=i < nd - 2) for i, s in enumerate(shape)])
        if case["when"]:
            g = r["metadata"]["General"]
            ctx.expect((g.get("date"), g.get("time")) == (md["General"]["date"], md["General"]["time"]), "date-time", f"{g}")
        if "extratags" in opts:
            ctx.expect(r["original_metadata"].get("65000") == case["extratag"], "extratag", f"{r['original_metadata'].get('65000')!r}")
        ctx.expect(r["metadata"]["General"]["original_filename"] == "t.tif", "original_filename")
    pages = ctx.sut(file_reader, p, multipage_as_list=True)
    frames = data if nd == 3 else data[None]
    ctx.expect(len(pages) == len(frames), "pages", f"{len(pages)} pages for {len(frames)} frames")
    for pg, fr in zip(pages, frames):
        sigs.check_structure(ctx, pg)
        sigs.check_data(ctx, pg["data"], fr, key="page", dtype=None)


@st.composite
def foreign(draw):
    kind = draw(st.sampled_from(["imagej", "plain", "resolution"]))
    nd = draw(st.integers(2, 3)) if kind != "plain" else draw(st.integers(2, 4))
    shape = draw(gen.shapes(nd, nd, 2, 7))
    return dict(
        kind=kind,
        shape=shape,
        dtype=draw(st.sampled_from(["u1", "u2", "f4"])),
        seed=draw(gen.seeds),
        sx=draw(st.floats(1e-3, 1e3)),
        sy=draw(st.floats(1e-3, 1e3)),
        z=draw(st.one_of(st.none(), st.floats(0.01, 100))),
        unit=draw(st.sampled_from(["micron", "nm", "cm", None])),
        resunit=draw(st.sampled_from([1, 2, 3])),
        force=draw(st.booleans()),
    )


def check_foreign(case, ctx):
    import tifffile

    from rsciio.tiff import file_reader

    c = case
    data = gen.make_array((c["dtype"], c["shape"], "random", c["seed"]))
    nd = data.ndim
    p = ctx.path("f.tif")
    kw = {}
    ctx.label(c["kind"], f"nd{nd}", "force" if c["force"] else "no-force")
    ctx.nontrivial()
    res = (1 / c["sx"], 1 / c["sy"])
    if c["kind"] == "imagej":
        md = {"axes": "ZYX"[3 - nd :]}
        if c["unit"]:
            md["unit"] = c["unit"]
        if c["z"] and nd == 3:
            md["spacing"] = c["z"]
        tifffile.imwrite(p, data, imagej=True, resolution=res, metadata=md)
    elif c["kind"] == "resolution":
        tifffile.imwrite(p, data, resolution=res, resolutionunit=c["resunit"], photometric="minisblack")
    else:
        tifffile.imwrite(p, data, photometric="minisblack")
    r = ctx.sut(file_reader, p, force_read_resolution=c["force"])
    ctx.expect(len(r) == 1, "count")
    r = r[0]
    sigs.check_structure(ctx, r)
    sigs.check_data(ctx, r["data"], data)
    sx = sy = z = 1.0
    u = None
    resunit = c["resunit"] if c["kind"] == "resolution" else 1
    if c["force"] and c["kind"] == "resolution":
        f = {1: None, 2: 25400, 3: 10000}[resunit]
        if f:
            sx, sy, u = c["sx"] * f, c["sy"] * f, "µm"
    elif c["kind"] == "imagej" and not c["force"]:
        if c["unit"]:
            sx, sy = c["sx"], c["sy"]
            u = "µm" if c["unit"] == "micron" else None
        if c["z"] and nd == 3:
            z = c["z"]
    if c["kind"] == "imagej" and c["force"]:
        return  # which unit tifffile declares for ImageJ files is not ours to say
    e = [dict(scale=sy, offset=0.0, units=u), dict(scale=sx, offset=0.0, units=u)]
    if nd == 3:
        e.insert(0, dict(scale=z, offset=0.0, navigate=True))
    if nd < 4:
        for a, b in zip(e, data.shape):
            a["_tol"] = (1e-6, 0)
            a["size"] = b
        sigs.check_axes(ctx, r["axes"], e)


# ------------------------------------------------ layouts of other software


@st.composite
def layouts(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    return dict(
        series=[
            dict(
                shape=draw(gen.shapes(2, 2, 2, 20)),
                frames=draw(st.sampled_from([None, None, None, 2, 3])),
                samples=draw(st.sampled_from([None, None, 3, 3, 4])),
                planar=draw(st.sampled_from(["contig", "separate"])),
                dtype=draw(st.sampled_from(["u1", "u2"])),
                photometric=draw(st.sampled_from(["minisblack", "miniswhite"])),
                tile=draw(st.booleans()),
                compression=draw(st.sampled_from([None, None, "zlib", "lzw", "packbits"])),
                seed=draw(gen.seeds),
                res=(draw(st.sampled_from([0.5, 2.0, 10.0])), draw(st.sampled_from([0.25, 4.0]))),
                date=draw(st.one_of(st.none(), st.datetimes(min_value=datetime.datetime(1900, 1, 1), max_value=datetime.datetime(2100, 1, 1)))),
                axes=draw(st.booleans()),
            )
            for _ in range(n)
        ],
        byteorder=draw(st.sampled_from(["<", ">"])),
        bigtiff=draw(st.booleans()),
        force=draw(st.booleans()),
        lazy=draw(st.booleans()),
    )


def n_colours_last(d):
    return d["samples"] and d["planar"] == "contig"


def check_layouts(c, ctx):
    import tifffile

    from rsciio.tiff import file_reader

    p = ctx.path("l.tif")
    want = []
    pages = []
    with tifffile.TiffWriter(p, byteorder=c["byteorder"], bigtiff=c["bigtiff"]) as tw:
        for i, d in enumerate(c["series"]):
            # no two series are alike
            shape = (() if d["frames"] is None else (d["frames"],)) + (d["shape"][0] + 20 * i, d["shape"][1])
            kw = dict(photometric=d["photometric"], resolution=(1 / d["res"][0], 1 / d["res"][1]), resolutionunit=3, metadata=None)
            if d["samples"]:
                kw["photometric"] = "rgb"
                kw["planarconfig"] = d["planar"]
            if d["samples"] == 4:
                kw["extrasamples"] = ["unassalpha"]
            if d["axes"] and n_colours_last(d):
                # axes as tifffile writes them in its own description
                kw["metadata"] = {"axes": ("Z" if d["frames"] else "") + "YXC"}
            if d["tile"]:
                kw["tile"] = (16, 16)
            if d["compression"]:
                kw["compression"] = d["compression"]
            if d["date"]:
                kw["datetime"] = d["date"].replace(microsecond=0)
            full = gen.make_array((d["dtype"], shape + ((d["samples"],) if d["samples"] else ()), "random", d["seed"]))
            stored = np.moveaxis(full, -1, -3) if d["samples"] and d["planar"] == "separate" else full
            try:
                tw.write(np.ascontiguousarray(stored), **kw)
            except Exception:  # what tifffile itself can't write
                raise Reject
            want.append((d, full))
            pages += [(d, f) for f in (full if d["frames"] else [full])]
    ctx.label(f"{len(want)} series", *(f"{d['samples'] or 'grey'} {d['planar'] if d['samples'] else ''}" for d, _ in want))
    ctx.nontrivial()

    def judge(rs, want, lazy, names):
        ctx.expect(len(rs) == len(want), "number of signals", f"{len(rs)} of {len(want)}")
        for r, (d, full) in zip(rs, want):
            sigs.check_structure(ctx, r)
            got = r["data"]
            ctx.expect(hasattr(got, "__dask_keys__") == lazy, "lazy", type(got))
            v = sigs.compute(got)
            if d["samples"]:
                ctx.expect(v.dtype.names == ("R", "G", "B", "A")[: d["samples"]], "colours", f"{v.dtype} of {d}")
                ctx.expect(got.dtype == v.dtype and got.shape == v.shape, "lazy-announced", f"{got.dtype} {got.shape}, computed {v.dtype} {v.shape}")
                v = np.stack([v[k] for k in v.dtype.names], -1)
            ctx.expect(v.shape == full.shape and np.array_equal(v, full), "data", lambda: f"{gen.short(v)} expected {gen.short(full)}")
            n = 3 if d["frames"] and names else 2
            ax = r["axes"]
            ctx.expect(len(ax) == n, "axes", ax)
            sx, sy, u = (d["res"][0] * 1e4, d["res"][1] * 1e4, "µm") if c["force"] else (1.0, 1.0, None)
            sigs.check_axes(ctx, ax[-2:], [dict(name="height", scale=sy, units=u, offset=0.0, navigate=False, _tol=(1e-6, 0)), dict(name="width", scale=sx, units=u, offset=0.0, navigate=False, _tol=(1e-6, 0))])
            g = r["metadata"]["General"]
            e = d["date"].replace(microsecond=0) if d["date"] else None
            ctx.expect((g.get("date"), g.get("time")) == ((e.date().isoformat(), e.time().isoformat()) if e else (None, None)), "date-time", g)

    judge(ctx.sut(file_reader, p, lazy=c["lazy"], force_read_resolution=c["force"]), want, c["lazy"], True)
    # the date is in the first page of a series
    pg = [(dict(d, frames=None), f) for d, f in pages]
    if all(d["frames"] is None for d, _ in want):
        judge(ctx.sut(file_reader, p, lazy=c["lazy"], force_read_resolution=c["force"], multipage_as_list=True), pg, c["lazy"], False)


PROP = Prop(
    "C07",
    "Random images and stacks of every dtype, RGB kind, memory layout, calibration over 21 decades, units, dates, "
    "tags and tifffile options, written and read back eagerly, lazily and page by page; and files generated with "
    "tifffile (ImageJ stacks, resolution tags, plain) read with and without force_read_resolution. Non-trivial: more "
    "than 3 pixels (all foreign cases count).",
    [
        Sub("roundtrip", cases, check, quick=900, shards=5),
        Sub("foreign", foreign, check_foreign, quick=500, shards=2),
        Sub("layouts", layouts, check_layouts, quick=400, shards=2),
    ],
)

"""C06: ripple (.rpl + .raw)."""

import os

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

WD = ["f8", "f4", "u1", "u2", "i4", "i8", ">f8", ">f4", ">u2", ">i4", ">i8"]
txt = gen.text(max_size=12, blacklist=";\t\x00").map(str.strip).filter(lambda s: "data-Length" not in s).map(lambda s: s.encode("latin-1", "ignore").decode("latin-1").strip())
utxt = gen.text(max_size=12, blacklist=";\t\x00").map(str.strip).filter(lambda s: "data-Length" not in s)


@st.composite
def cases(draw):
    rec = draw(st.sampled_from(["vector", "vector", "image", "dont-care"]))
    if rec == "vector":
        nnav = draw(st.integers(0, 2))
        shape = draw(gen.shapes(nnav, nnav, 1, 6)) + (draw(st.integers(2, 12)),)
    elif rec == "image":
        shape = (draw(st.integers(2, 6)),) + draw(gen.shapes(2, 2, 1, 6))
    else:
        shape = draw(gen.shapes(2, 2, 1, 8))
    nd = len(shape)
    enc = draw(st.sampled_from(["latin-1", "utf8"]))
    t = txt if enc == "latin-1" else utxt
    stype = draw(st.sampled_from(["", "EELS", "EDS_SEM", "EDS_TEM"]))
    ax = [
        dict(
            name=draw(t),
            units=draw(st.sampled_from(["nm", "eV", "µm", "<undefined>", "", "1 / nm"])),
            scale=draw(gen.scales),
            offset=draw(gen.offsets),
        )
        for _ in shape
    ]
    keys = {
        "": [],
        "EELS": ["beam_energy", "convergence_angle", "Detector.EELS.collection_angle"],
    }.get(stype, ["beam_energy", "Detector.EDS.elevation_angle", "Stage.tilt_alpha", "Detector.EDS.azimuth_angle", "Detector.EDS.live_time", "Detector.EDS.energy_resolution_MnKa"])
    return dict(
        rec=rec,
        data=(draw(st.sampled_from(WD)), shape, draw(gen.modes), draw(gen.seeds)),
        perm=draw(st.permutations(range(nd))),
        axes=ax,
        enc=enc,
        stype=stype,
        meta={k: draw(gen.floats(-1e4, 1e4)) for k in keys if draw(st.booleans())},
        title=draw(t),
        date=draw(st.sampled_from(["", "2020-02-30", "1999-12-31"])),
        time=draw(st.sampled_from(["", "10:20:30"])),
        chunks=draw(st.sampled_from(["auto", "tuple", "int"])),
        ext=draw(st.sampled_from(["rpl", "rpl", "RPL"])),
        raw_upper=draw(st.booleans()),
    )


def chunks_for(kind, shape, seed):
    if kind == "auto":
        return "auto"
    if kind == "int":
        return 1 + seed % 4
    return tuple(1 + (seed * (i + 3)) % s for i, s in enumerate(shape))


BACK = {
    "beam_energy": "Acquisition_instrument.TEM.beam_energy",
    "convergence_angle": "Acquisition_instrument.TEM.convergence_angle",
    "Detector.EELS.collection_angle": "Acquisition_instrument.TEM.Detector.EELS.collection_angle",
    "Detector.EDS.elevation_angle": "Acquisition_instrument.TEM.Detector.EDS.elevation_angle",
    "Detector.EDS.azimuth_angle": "Acquisition_instrument.TEM.Detector.EDS.azimuth_angle",
    "Detector.EDS.live_time": "Acquisition_instrument.TEM.Detector.EDS.live_time",
    "Detector.EDS.energy_resolution_MnKa": "Acquisition_instrument.TEM.Detector.EDS.energy_resolution_MnKa",
    "Stage.tilt_alpha": "Acquisition_instrument.TEM.Stage.tilt_alpha",
}


def put(d, path, v):
    p = path.split(".")
    for k in p[:-1]:
        d = d.setdefault(k, {})
    d[p[-1]] = v


def check(case, ctx):
    from rsciio.ripple import file_reader, file_writer

    base = gen.make_array(case["data"])
    nd = base.ndim
    nsig = {"vector": 1, "image": 2, "dont-care": 2}[case["rec"]]
    # canonical order is (nav..., sig...); hand the writer a permuted array in
    # which navigation axes and signal axes keep their relative order
    perm = list(case["perm"])
    nav = sorted(i for i in range(nd) if perm[i] < nd - nsig)
    order = [None] * nd
    navit, sigit = iter(range(nd - nsig)), iter(range(nd - nsig, nd))
    for i in range(nd):
        order[i] = next(navit) if i in nav else next(sigit)
    data = gen.relayout(base.transpose(order), case["data"][3])
    axes = [
        sigs.axis(i, base.shape[k], navigate=k < nd - nsig, **case["axes"][k])
        for i, k in enumerate(order)
    ]
    md = {"General": {"title": case["title"]}, "Signal": {"signal_type": case["stype"]}}
    for k in ("date", "time"):
        if case[k]:
            md["General"][k] = case[k]
    inst = {"EDS_SEM": "SEM"}.get(case["stype"], "TEM")
    if case["stype"].startswith("EDS") and case["data"][3] % 4:
        md["Acquisition_instrument"] = {inst: {}}
    for k, v in case["meta"].items():
        put(md, f"Acquisition_instrument.{inst}.{k}", v)
    p = ctx.path("t.rpl")
    ctx.label(case["rec"], f"nd{nd}", case["data"][0], "permuted" if order != list(range(nd)) else "canonical")
    ctx.nontrivial(base.size > 3)
    ctx.sut(file_writer, p, sigs.signal(data, axes, metadata=md), encoding=case["enc"])
    ctx.expect(os.path.exists(ctx.path("t.raw")), "raw-missing")
    if case["raw_upper"]:
        os.rename(ctx.path("t.raw"), ctx.path("t.RAW"))
    if case["ext"] != "rpl":
        os.rename(p, ctx.path("t.RPL"))
        p = ctx.path("t.RPL")
    keep = [i for i, n in enumerate(base.shape) if n > 1]
    exp = base.reshape([base.shape[i] for i in keep])
    eaxes = []
    for k in keep:
        a = case["axes"][k]
        eaxes.append(
            dict(name=a["name"], units=None if a["units"] == "<undefined>" else a["units"], scale=a["scale"], offset=a["offset"], size=base.shape[k], navigate=k < nd - nsig)
        )
    if exp.ndim == 0:
        return  # a single value: no dimension is stored
    for lazy in (False, True):
        r = ctx.sut(file_reader, p, lazy=lazy, encoding=case["enc"], chunks=chunks_for(case["chunks"], exp.shape, case["data"][3]))
        ctx.expect(len(r) == 1, "count")
        r = r[0]
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], exp, lazy=lazy, dtype="value")
        if case["rec"] != "dont-care" or exp.ndim == 2:
            sigs.check_axes(ctx, r["axes"], eaxes)
        m = r["metadata"]
        ctx.expect(m["General"]["title"] == case["title"], "title", f"{m['General']['title']!r}")
        ctx.expect(m["Signal"]["signal_type"] == case["stype"], "signal_type")
        for k in ("date", "time"):
            ctx.expect(m["General"][k] == case[k], k, f"{m['General'][k]!r}")
        for k, v in case["meta"].items():
            g = sigs.get(m, BACK[k], sigs.get(m, BACK[k].replace("TEM", "SEM")))
            ctx.expect(gen.close(g, v, 1e-12), "metadata", f"{k}: {g!r} expected {v!r}")


# ------------------------------------------------------------ foreign headers

TYPES = {("signed", 1): "i1", ("signed", 2): "i2", ("signed", 4): "i4", ("signed", 8): "i8", ("unsigned", 1): "u1", ("unsigned", 2): "u2", ("unsigned", 4): "u4", ("unsigned", 8): "u8", ("float", 4): "f4", ("float", 8): "f8"}
OPT = {"ev-per-chan": 1, "detector-peak-width-ev": 1, "depth-origin": 1, "depth-scale": 1, "width-origin": 1, "width-scale": 1, "height-origin": 1, "height-scale": 1, "collection-angle": 1, "convergence-angle": 1, "beam-energy": 1, "elevation-angle": 1, "azimuth-angle": 1, "live-time": 1, "tilt-stage": 1, "energy-resolution": 1}
OPTS = ["depth-units", "width-units", "height-units", "signal", "date", "time", "title", "depth-name", "width-name", "height-name"]


@st.composite
def foreign(draw):
    rec = draw(st.sampled_from(["vector", "image", "dont-care"]))
    t = draw(st.sampled_from(sorted(TYPES)))
    w, h = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    d = 1 if rec == "dont-care" else draw(st.integers(2, 8))
    opts = {k: draw(gen.floats(-1e4, 1e4)) for k in draw(st.sets(st.sampled_from(sorted(OPT)), max_size=8))}
    opts.update({k: draw(txt.filter(bool)) for k in draw(st.sets(st.sampled_from(OPTS), max_size=5))})
    return dict(
        rec=rec,
        type=t,
        whd=(w, h, d),
        order=("dont-care" if t[1] == 1 else draw(st.sampled_from(["little-endian", "big-endian", "dont-care"]))),
        offset=draw(st.sampled_from([0, 0, 1, 7, 512])),
        opts=opts,
        eol=draw(st.sampled_from(["\n", "\r\n"])),
        comments=draw(st.booleans()),
        length_key=draw(st.sampled_from(["data-length", "data-Length"])),
        shuffle=draw(st.randoms(use_true_random=False)).random(),
        seed=draw(gen.seeds),
        chunks=draw(st.sampled_from(["auto", "tuple", "int"])),
        via=draw(st.sampled_from(["rpl", "rpl", "info", "inca"])),
        tail=draw(st.sampled_from([0, 0, 5])),
    )


def check_foreign(case, ctx):
    import random

    from rsciio.ripple import file_reader

    w, h, d = case["whd"]
    opts = dict(case["opts"])
    if case["via"] == "inca":
        opts = {k: v for k, v in opts.items() if k in OPT}
    kd = {
        "width": w,
        "height": h,
        "depth": d,
        "offset": case["offset"],
        case["length_key"]: case["type"][1],
        "data-type": case["type"][0],
        "byte-order": case["order"],
        "record-by": case["rec"],
    }
    kd.update(opts)
    lines = [f"{k}\t{v!r}" if isinstance(v, float) else f"{k}\t{v}" for k, v in kd.items()]
    random.Random(case["shuffle"]).shuffle(lines)
    if case["comments"]:
        lines = ["; a comment"] + [ln + (" ; note" if i % 3 == 0 else "") for i, ln in enumerate(lines)]
        lines.insert(len(lines) // 2, "")
        lines.insert(1, ";another\tone")
    text = case["eol"].join(["key\tvalue"] + lines) + case["eol"]
    if case["via"] == "inca":
        text = case["eol"].join(["(MLX::RIPPLE"] + [f"(MLX::{k.upper()} : {v!r})" if isinstance(v, float) else f"(MLX::{k.upper()} : {str(v).upper()})" for k, v in kd.items()] + [")"]) + case["eol"]
    if not case["comments"] and case["via"] == "rpl":
        pass
    dt = np.dtype(TYPES[case["type"]]).newbyteorder(">" if case["order"] == "big-endian" else "<")
    shape = {"vector": (h, w, d), "image": (d, h, w), "dont-care": (h, w)}[case["rec"]]
    data = gen.make_array((dt.str, shape, "random", case["seed"]))
    p = ctx.path("f.rpl")
    with open(p, "w", encoding="latin-1", newline="") as f:
        f.write(text)
    with open(ctx.path("f.raw"), "wb") as f:
        f.write(b"\x7f" * case["offset"] + data.tobytes() + b"\x01" * case["tail"])
    ctx.label(case["rec"], case["via"], case["order"], "offset" if case["offset"] else "no-offset")
    ctx.nontrivial(data.size > 3)
    exp = data.reshape([n for n in shape if n > 1])
    if exp.ndim == 0:
        return
    names = {"vector": ("height", "width", "depth"), "image": ("depth", "height", "width"), "dont-care": ("height", "width")}[case["rec"]]
    eaxes = []
    for nm, n in zip(names, shape):
        if n > 1:
            sc = opts.get(nm + "-scale", 1)
            if nm == "depth" and "depth-scale" not in opts:
                sc = opts.get("ev-per-chan", 1)
            e = dict(name=opts.get(nm + "-name", nm), units=opts.get(nm + "-units", ""), scale=sc, offset=opts.get(nm + "-origin", 0), size=n)
            if case["rec"] == "vector":
                e["navigate"] = nm != "depth"
            elif case["rec"] == "image":
                e["navigate"] = nm == "depth"
            eaxes.append(e)
    kw = {}
    if case["via"] == "info":
        info = dict(kd)
        info["data-length"] = str(info.pop(case["length_key"]))
        kw["rpl_info"] = info
        os.remove(p)
    for lazy in (False, True):
        if "rpl_info" in kw:
            kw["rpl_info"] = dict(info)
        r = ctx.sut(file_reader, p, lazy=lazy, chunks=chunks_for(case["chunks"], exp.shape, case["seed"]), **kw)[0]
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], exp, lazy=lazy, dtype="value")
        sigs.check_axes(ctx, r["axes"], eaxes)
        m = r["metadata"]
        for k in ("title", "date", "time"):
            ctx.expect(m["General"][k] == opts.get(k, ""), k, f"{m['General'][k]!r} expected {opts.get(k, '')!r}")
        ctx.expect(m["Signal"]["signal_type"] == opts.get("signal", ""), "signal")
        for k, path in (
            ("convergence-angle", "convergence_angle"),
            ("tilt-stage", "Stage.tilt_alpha"),
            ("collection-angle", "Detector.EELS.collection_angle"),
            ("beam-energy", "beam_energy"),
            ("elevation-angle", "Detector.EDS.elevation_angle"),
            ("azimuth-angle", "Detector.EDS.azimuth_angle"),
            ("detector-peak-width-ev", "Detector.EDS.energy_resolution_MnKa"),
            ("live-time", "Detector.EDS.live_time"),
        ):
            g = sigs.get(m, "Acquisition_instrument.TEM." + path)
            exp_ = opts.get(k)
            if k == "detector-peak-width-ev" and exp_ is None:
                exp_ = opts.get("energy-resolution")  # its name in files of HyperSpy < 0.8.5
            ctx.expect(g == exp_, "metadata", f"{k}: {g!r} expected {exp_!r}")
        for k, v in kd.items():
            k = "data-length" if k.lower() == "data-length" else k
            g = r["original_metadata"].get(k)
            ctx.expect(str(g) == str(v) if not isinstance(v, float) else g == v, "original_metadata", f"{k}: {g!r} expected {v!r}")


PROP = Prop(
    "C06",
    "Round trips of random signals (all supported dtypes and byte orders, vector/image/single-image records, permuted "
    "axis order, unit dimensions, calibrations and metadata, random dask chunks); and reading of generated rpl headers "
    "(key order, comments, line endings, INCA notation, rpl_info dictionaries) over generated raw files with offsets. "
    "Non-trivial: more than 3 data values.",
    [
        Sub("roundtrip", cases, check, quick=1000, shards=4),
        Sub("foreign", foreign, check_foreign, quick=1000, shards=4),
    ],
)

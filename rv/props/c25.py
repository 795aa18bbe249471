"""C25: EMPAD raw files described by xml, and Dectris Arina HDF5 masters."""

import pathlib
from xml.sax.saxutils import escape

import h5py
import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

PREFIX = {"m": 1.0, "mm": 1e-3, "µm": 1e-6, "nm": 1e-9, "pm": 1e-12, "fm": 1e-15, "am": 1e-18, "km": 1e3, "Mm": 1e6}
NAME = st.text("abcXYZ_- é09", min_size=1, max_size=12).map(str.strip).filter(bool)


# ---------------------------------------------------------------- EMPAD


@st.composite
def empad(draw):
    kind = draw(st.sampled_from(["series", "pix", "name", "both"]))
    shape = [draw(st.integers(1, 9))] if kind == "series" else [draw(st.integers(1, 4)), draw(st.integers(1, 4))]
    return dict(
        kind=kind,
        shape=shape,
        seed=draw(gen.seeds),
        nans=draw(st.sampled_from([0, 0, 3])),
        spare=draw(st.sampled_from([0, 0, 1, 512])),
        prefix=draw(st.sampled_from(["", "", "a_", "x_x9_"])),
        fov=draw(st.sampled_from([None, "old", "new", "new"])),
        size=draw(st.floats(1e-10, 1e-3)),
        factor=draw(st.sampled_from([0.72, 1.0, 0.5])),
        pixel=draw(st.none() | st.floats(1e-3, 10).map(lambda v: v * 1e9)),
        q=draw(st.none() | st.floats(1e-3, 10)),
        date=draw(st.none() | st.datetimes().map(lambda d: d.isoformat())),
        extra=draw(st.dictionaries(st.sampled_from(["software_version", "type", "count", "note"]), gen.text(min_size=1, max_size=8).filter(lambda s: s.strip() == s and s), max_size=3)),
        name=draw(NAME),
        lazy=draw(st.booleans()),
        remove_nans=draw(st.booleans()),
        subdir=draw(st.booleans()),
        pathlib=draw(st.booleans()),
    )


def empad_frames(c):
    rng = np.random.default_rng(c["seed"])
    n = int(np.prod(c["shape"]))
    a = rng.normal(0, 1000, size=(n, 130, 128)).astype("<f4")
    for _ in range(c["nans"]):
        a[rng.integers(n), rng.integers(128), rng.integers(128)] = np.nan
    return a


def empad_raw(c):
    if c["kind"] == "series":
        return f"series_x{c['shape'][0]}.raw"
    y, x = c["shape"]
    if c["kind"] == "name":
        return f"scan_{c['prefix']}x{x}_y{y}.raw"
    return f"scan_x{x}_y{y}.raw" if c["kind"] == "both" else f"{c['prefix']}data.raw"


def empad_xml(c):
    x = '<root name="acquisition_1">'
    if c["date"]:
        x += f'<timestamp timestamp="1559906242.590279" isoformat="{c["date"]}"/>'
    for k, v in c["extra"].items():
        x += f"<{k}>{escape(v)}</{k}>"
    x += f'<raw_file filename="{empad_raw(c)}"/>'
    if c["kind"] == "series":
        x += f'<scan_parameters mode="series"><series_count>{c["shape"][0]}</series_count><exposure_time>1.0</exposure_time></scan_parameters>'
    if c["kind"] in ("pix", "both"):
        x += f"<pix_x>{c['shape'][1]}</pix_x><pix_y>{c['shape'][0]}</pix_y>"
    m = ""
    if c["fov"] == "old":
        m += f"<optics><get_full_scan_field_of_view>({c['size']!r}, {c['size']!r})</get_full_scan_field_of_view></optics>"
    if c["fov"] == "new":
        m += f"<full_scan_field_of_view><x>{c['size']!r}</x><y>{c['size']!r}</y><scale_factor>{c['factor']!r}</scale_factor></full_scan_field_of_view>"
    if c["pixel"] is not None:
        m += f"<calibrated_pixelsize>{c['pixel'] / 1e18!r}</calibrated_pixelsize>"
    return x + f'<iom_measurements source="x">{m}<n>1</n></iom_measurements></root>'


def in_metres(scale, units):
    return scale * PREFIX[units]


def check_empad(c, ctx):
    d = pathlib.Path(ctx.path("data" if c["subdir"] else "."))
    d.mkdir(exist_ok=True)
    a = empad_frames(c)
    (d / empad_raw(c)).write_bytes(a.tobytes() + bytes(c["spare"]))
    p = d / (c["name"] + ".xml")
    p.write_text(empad_xml(c), encoding="utf-8")
    from rsciio.empad import file_reader

    kw = {}
    if c["q"] is not None:
        kw["q_calibration"] = c["q"]
    if c["remove_nans"]:
        kw["remove_nans"] = True
    (r,) = ctx.sut(file_reader, p if c["pathlib"] else str(p), lazy=c["lazy"], **kw)
    ctx.nontrivial(np.prod(c["shape"]) > 1)
    ctx.label(c["kind"], "lazy" if c["lazy"] else "eager", f"fov {c['fov']}")
    sigs.check_structure(ctx, r)
    want = a[:, :128].reshape(*c["shape"], 128, 128)
    if c["remove_nans"]:
        want = np.where(np.isnan(want), np.float32(0), want)
    want = want.reshape([n for n in want.shape if n > 1])
    got = sigs.compute(r["data"])
    ctx.expect(hasattr(r["data"], "__dask_keys__") == c["lazy"], "lazy", f"{type(r['data'])}")
    ctx.expect(np.asarray(got).dtype == np.float32 and gen.arrays_equal(np.asarray(got), want), "data", lambda: f"{gen.short(got)} instead of {gen.short(want)}")
    # axes
    names = ["series_count"] if c["kind"] == "series" else ["scan_y", "scan_x"]
    expected = []
    for name, n in zip(names, c["shape"]):
        if n == 1:
            continue
        length = None
        if c["kind"] != "series":
            if c["fov"] == "old":
                length = c["size"] / n
            elif c["fov"] == "new":
                length = c["size"] / c["factor"] / max(c["shape"])
        expected.append((name, n, True, length))
    expected += [("height", 128, False, None), ("width", 128, False, None)]
    ctx.expect(len(r["axes"]) == len(expected), "number of axes", f"{r['axes']}")
    for i, (ax, (name, n, nav, length)) in enumerate(zip(r["axes"], expected)):
        ctx.expect(ax["name"] == name and ax["size"] == n and ax["navigate"] is nav and ax["index_in_array"] == i, "axis", f"{ax}")
        if not nav:
            q = c["q"] if c["q"] is not None else c["pixel"] / 1e9 if c["pixel"] is not None else None
            ctx.expect(gen.close(ax["scale"], 1 if q is None else q) and ax["units"] == (None if q is None else "1/nm"), "signal scale", f"{ax}")
            ctx.expect(gen.close(ax["offset"], -64 * ax["scale"]), "signal offset", f"{ax}")
        elif length is not None:
            ctx.expect(ax["offset"] == 0 and gen.close(in_metres(ax["scale"], ax["units"]), length), "navigation scale", f"{ax}: {length}")
        else:
            ctx.expect(ax["offset"] == 0 and ax["scale"] == 1, "navigation scale", f"{ax}")
    g = r["metadata"]["General"]
    ctx.expect(g["original_filename"] == c["name"] + ".xml" and g["title"] == c["name"], "title", f"{g}")
    ctx.expect(r["metadata"]["Signal"]["signal_type"] == "electron_diffraction", "signal type", f"{r['metadata']}")
    if c["date"]:
        date, time = c["date"].split("T")
        ctx.expect(g["date"] == date and g["time"] == time, "date", f"{g}")
    om = r["original_metadata"]["root"]
    for k, v in c["extra"].items():
        ctx.expect(str(om.get(k)) == v, "original metadata", f"{k}: {om.get(k)!r} instead of {v!r}")


# ---------------------------------------------------------------- Arina


@st.composite
def arina(draw):
    rebin = draw(st.sampled_from([1, 1, 2, 3]))
    h = draw(st.integers(1, 4)) * rebin
    w = draw(st.integers(1, 4)) * rebin
    nav = draw(st.tuples(st.integers(1, 6), st.integers(1, 6)))
    square = draw(st.sampled_from([False, False, True]))
    if square:
        nav = (nav[0], nav[0])
    n = nav[0] * nav[1]
    how = draw(st.sampled_from(["full", "x", "x auto", "auto y"] + ["none"] * 2 * square))
    # images of the data files
    parts = []
    while sum(parts) < n:
        parts.append(draw(st.integers(1, n - sum(parts))))
    return dict(
        nav=nav,
        how=how,
        parts=parts,
        external=draw(st.booleans()),
        shape=(h, w),
        rebin=rebin,
        kind=draw(st.sampled_from(["u1", "u2", "u4", "u4"])),
        dtype=draw(st.sampled_from([None, None, "float32", "float64", "uint16", "uint32"])),
        flat=draw(st.sampled_from([None, None, "ones", "any", "zeros"])),
        seed=draw(gen.seeds),
        pixel=draw(st.none() | st.floats(1e-3, 1e3)),
        name=draw(NAME),
        folder=draw(st.sampled_from(["", "", "a_master.h5", "b"])),
        pathlib=draw(st.booleans()),
        compression=draw(st.sampled_from([None, "gzip", "bitshuffle"])),
    )


def arina_frames(c):
    rng = np.random.default_rng(c["seed"])
    top = {"u1": 256, "u2": 65536, "u4": 65536}[c["kind"]]
    return rng.integers(0, top, size=(sum(c["parts"]), *c["shape"])).astype("<" + c["kind"])


def check_arina(c, ctx):
    from rsciio.arina import file_reader

    d = pathlib.Path(ctx.path(c["folder"] or "."))
    d.mkdir(exist_ok=True)
    a = arina_frames(c)
    kw = {}
    if c["compression"] == "gzip":
        kw["compression"] = "gzip"
    elif c["compression"] == "bitshuffle":
        import hdf5plugin

        kw.update(hdf5plugin.Bitshuffle())
    p = d / f"{c['name']}_master.h5"
    with h5py.File(p, "w") as f:
        g = f.create_group("entry/data")
        k = 0
        for i, n in enumerate(c["parts"], 1):
            name = f"data_{i:06d}"
            if c["external"]:
                with h5py.File(d / f"{c['name']}_{name}.h5", "w") as e:
                    e.create_dataset("entry/data/data", data=a[k : k + n], chunks=(1, *c["shape"]), **kw)
                g[name] = h5py.ExternalLink(f"{c['name']}_{name}.h5", "entry/data/data")
            else:
                g.create_dataset(name, data=a[k : k + n], chunks=(1, *c["shape"]), **kw)
            k += n
    if c["pixel"] is not None:
        with h5py.File(d / f"{c['name']}.h5", "w") as f:
            f.create_group("STEM Metadata").attrs["Pixel Size"] = np.array([c["pixel"], c["pixel"]])
    opt = {}
    x, y = c["nav"]
    nav = {"none": None, "full": (x, y), "x": x, "x auto": (x, "auto"), "auto y": ("auto", y)}[c["how"]]
    if nav is not None:
        opt["navigation_shape"] = nav
    b = c["rebin"]
    if b > 1:
        opt["rebin_diffraction"] = b
    if c["dtype"]:
        opt["dtype"] = c["dtype"]
    factor = np.ones(c["shape"])
    if c["flat"]:
        rng = np.random.default_rng(c["seed"] + 1)
        flat = np.ones(c["shape"]) if c["flat"] == "ones" else rng.uniform(0.5, 2, size=c["shape"])
        if c["flat"] == "zeros":
            flat[rng.random(c["shape"]) < 0.2] = 0
        opt["flatfield"] = flat.astype(np.float32)
        flat = opt["flatfield"].astype(float)
        factor = np.where(flat == 0, 1, np.median(flat) / np.where(flat == 0, 1, flat))
        before = opt["flatfield"].copy()
    (r,) = ctx.sut(file_reader, p if c["pathlib"] else str(p), **opt)
    ctx.nontrivial(sum(c["parts"]) > 1)
    ctx.label(f"nav {c['how']}", f"rebin {b}", f"flat {c['flat']}", f"{len(c['parts'])} parts")
    h, w = c["shape"]
    dtype = np.dtype("float32" if c["flat"] else c["dtype"] or {"u1": "u1", "u2": "u2", "u4": "u2"}[c["kind"]])
    want = a * factor
    want = want.reshape(-1, h // b, b, w // b, b).mean(axis=(2, 4)).reshape(x, y, h // b, w // b)
    got = r["data"]
    ctx.expect(got.shape == want.shape, "shape", f"{got.shape} instead of {want.shape}")
    ctx.expect(got.dtype == dtype, "dtype", f"{got.dtype} instead of {dtype}")
    err = np.abs(got.astype(float) - want)
    ctx.expect((err < 1 if dtype.kind == "u" and b > 1 else err <= 1e-4 * np.abs(want)).all(), "data", lambda: f"{gen.short(got)} instead of {gen.short(want)}")
    if c["flat"]:
        ctx.expect(np.array_equal(opt["flatfield"], before), "flatfield modified", "")
    ctx.expect([ax["name"] for ax in r["axes"]] == ["x", "y", "qx", "qy"] and [ax["size"] for ax in r["axes"]] == list(want.shape), "axes", f"{r['axes']}")
    for ax in r["axes"]:
        real = ax["name"] in ("x", "y") and c["pixel"] is not None
        ctx.expect(ax["units"] == ("A" if real else "1") and gen.close(ax["scale"], 10 * c["pixel"] if real else 1) and ax["offset"] == 0, "calibration", f"{ax}")


PROP = Prop(
    "C25",
    "several frames",
    [
        Sub("empad", empad, check_empad, quick=250, shards=3),
        Sub("arina", arina, check_arina, quick=700, shards=3),
    ],
)

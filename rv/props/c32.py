"""C32: EDAX spc spectra, spd maps and lsd line scans, encoded by the offsets of the specification."""

import os
import pathlib
import struct

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

ELEMENTS = {1: "H", 6: "C", 8: "O", 13: "Al", 14: "Si", 20: "Ca", 26: "Fe", 29: "Cu", 39: "Y", 58: "Ce", 67: "Ho", 79: "Au", 92: "U"}
F32 = st.floats(-1000, 1000, width=32)


@st.composite
def spc(draw):
    return dict(
        version=draw(st.sampled_from([0.61, 0.7, 0.7])),
        n=draw(st.integers(2, 60) | st.sampled_from([4000, 4096])),
        start=draw(st.sampled_from([3840, 3840, 3840, 21000])),
        seed=draw(gen.seeds),
        ev=draw(st.sampled_from([5, 10, 20, 1, 40])),
        energy=draw(st.sampled_from([0.0, 0.0, -0.5, 0.25, 1.5])),
        live=draw(F32),
        tilt=draw(F32),
        reso=draw(F32),
        azimuth=draw(F32),
        elevation=draw(F32),
        kv=draw(st.sampled_from([30.0, 20.0, 200.0, 12.5])),
        elements=draw(st.lists(st.sampled_from(sorted(ELEMENTS)), max_size=6, unique=True)),
        junk=draw(st.booleans()),
        date=draw(st.tuples(st.integers(1990, 2100), st.integers(1, 12), st.integers(1, 28))),
        file=draw(st.text("abcXYZ019_", max_size=8)),
        analyzer=draw(st.integers(0, 100)),
        tube=draw(st.integers(0, 92)),
    )


def spc_counts(s):
    return np.random.default_rng(s["seed"]).integers(0, 2**32, size=s["n"], dtype="u4")


def spc_bytes(s, e):
    data = spc_counts(s).astype(e + "u4").tobytes()
    size = max(20998, s["start"] + len(data))
    b = bytearray(size)
    if s["junk"]:
        b[:] = np.random.default_rng(s["seed"] + 1).integers(0, 256, size, dtype="u1").tobytes()

    def put(off, fmt, *v):
        struct.pack_into(e + fmt, b, off, *v)

    put(0, "f", s["version"])
    put(8, "8s", s["file"].encode())
    y, m, d = s["date"]
    put(16, "hbb", y, d, m)
    put(28, "ih", s["start"], s["n"])
    put(384, "i", s["ev"])
    put(404, "h", s["tube"])
    put(444, "I", s["analyzer"])
    put(448, "4f", s["energy"], s["energy"] + s["ev"] * s["n"] / 1000, s["live"], s["tilt"])
    put(472, "f", s["reso"])
    put(508, "2f", s["azimuth"], s["elevation"])
    put(532, "f", s["kv"])
    put(638, "h", len(s["elements"]))
    put(640, f"{len(s['elements'])}H", *s["elements"])
    put(20224, "256s", (s["file"] + ".spc").encode())
    b[s["start"] : s["start"] + len(data)] = data
    return bytes(b)


def check_spc_metadata(ctx, r, s, load_all):
    md = r["metadata"]
    sem = md["Acquisition_instrument"]["SEM"]
    eds = sem["Detector"]["EDS"]
    for got, want in (
        (eds["azimuth_angle"], s["azimuth"]),
        (eds["elevation_angle"], s["elevation"]),
        (eds["energy_resolution_MnKa"], s["reso"]),
        (eds["live_time"], s["live"]),
        (sem["beam_energy"], s["kv"]),
        (sem["Stage"]["tilt_alpha"], s["tilt"]),
    ):
        ctx.expect(gen.close(float(got), want, 1e-6), "metadata", f"{md}: {got} instead of {want}")
    names = sorted(ELEMENTS[z] for z in s["elements"])
    ctx.expect(list(md.get("Sample", {}).get("elements", [])) == names, "elements", f"{md.get('Sample')} instead of {names}")
    h = r["original_metadata"]["spc_header"]
    if load_all:
        y, m, d = s["date"]
        for k, v in dict(collectDateYear=y, collectDateMon=m, collectDateDay=d, analyzerType=s["analyzer"], xRayTubeZ=s["tube"], evPerChan=s["ev"], numPts=s["n"]).items():
            ctx.expect(h[k] == v, "header", f"{k}: {h[k]} instead of {v}")
        ctx.expect(bytes(np.asarray(h["fileName"]).tobytes()).rstrip(b"\0") == s["file"].encode(), "header", f"fileName {h['fileName']}")
        ctx.expect(np.asarray(h["longFileName"]).tobytes().rstrip(b"\0") == s["file"].encode() + b".spc", "header", f"longFileName {h['longFileName']}")


@st.composite
def spectra(draw):
    return dict(spc=draw(spc()), big=draw(st.booleans()), lazy=draw(st.booleans()), load_all=draw(st.booleans()), upper=draw(st.booleans()), pathlib=draw(st.booleans()))


def check_spectrum(c, ctx):
    from rsciio.edax import file_reader

    s = c["spc"]
    p = ctx.path("a b.SPC" if c["upper"] else "a b.spc")
    e = ">" if c["big"] else "<"
    with open(p, "wb") as f:
        f.write(spc_bytes(s, e))
    kw = dict(endianness=">") if c["big"] else {}
    if c["load_all"]:
        kw["load_all_spc"] = True
    (r,) = ctx.sut(file_reader, pathlib.Path(p) if c["pathlib"] else p, lazy=c["lazy"], **kw)
    sigs.check_structure(ctx, r)
    ctx.nontrivial()
    ctx.label("lazy" if c["lazy"] else "eager", "big" if c["big"] else "little")
    got = np.asarray(sigs.compute(r["data"]))
    want = spc_counts(s)
    ctx.expect(hasattr(r["data"], "__dask_keys__") == c["lazy"], "lazy", f"{type(r['data'])}")
    ctx.expect(got.dtype.newbyteorder("=") == np.uint32 and gen.arrays_equal(got.astype("u4"), want), "data", lambda: f"{gen.short(got)} instead of {gen.short(want)}")
    (ax,) = r["axes"]
    check_energy(ctx, ax, s, s["n"])
    ctx.expect(r["metadata"]["General"]["original_filename"] == os.path.basename(p), "original_filename", f"{r['metadata']}")
    ctx.expect(r["metadata"]["Signal"]["signal_type"] == "EDS_SEM", "signal type", f"{r['metadata']}")
    check_spc_metadata(ctx, r, s, c["load_all"])


def check_energy(ctx, ax, s, n):
    ctx.expect(ax["name"] == "Energy" and ax["size"] == n and ax["navigate"] is False, "energy axis", f"{ax}")
    if s:
        ctx.expect(ax["units"] == "keV" and gen.close(float(ax["scale"]), s["ev"] / 1000) and gen.close(float(ax["offset"]), s["energy"]), "energy calibration", f"{ax}")


@st.composite
def images(draw):
    line = draw(st.booleans())
    name = draw(st.sampled_from(["map", "map 1", "a.b", "Area_1 é"]))
    return dict(
        line=line,
        shape=draw(gen.shapes(3, 3, 2, 6)) if not line else draw(st.tuples(st.integers(2, 9), st.integers(2, 8))),
        column=draw(st.booleans()),
        unfinished=draw(st.sampled_from([0, 0, 1])),
        count=draw(st.sampled_from([1, 2, 4])),
        seed=draw(gen.seeds),
        offset=draw(st.sampled_from([1068, 1068, 2048, 4096])),
        spare=draw(st.sampled_from([0, 7])),
        frames=draw(st.integers(0, 100)),
        name=name,
        image=draw(st.sampled_from([name + "_Img", "spd_map", "x.y"])).encode("ascii", "ignore").decode(),
        spc=draw(st.none() | spc()),
        spc_given=draw(st.booleans()),
        ipr=draw(st.none() | st.fixed_dictionaries(dict(version=st.sampled_from([333, 334]), x=st.floats(0.0009765625, 100, width=32), y=st.floats(0.0009765625, 100, width=32), mag=st.integers(0, 10**6), kv=st.integers(0, 3000), text=st.lists(st.text("abc 1", max_size=20).map(str.rstrip), min_size=4, max_size=4)))),
        ipr_given=draw(st.booleans()),
        csv=draw(st.none() | st.tuples(st.sampled_from([0.0, 10.0, -2.5]), st.sampled_from([1.0, 0.25, 12.5]))),
        csv_given=draw(st.booleans()),
        csv_header=draw(st.lists(st.tuples(st.sampled_from(["Title", "kV", "Mag", "Date", "Element list"]), st.text("abc, 01:", min_size=1, max_size=10).map(str.strip)), max_size=4, unique_by=lambda t: t[0])),
        bom=draw(st.booleans()),
        big=draw(st.booleans()),
        lazy=draw(st.booleans()),
        chunks=draw(st.none() | st.integers(1, 4)),
        load_all=draw(st.booleans()),
        upper=draw(st.booleans()),
        pathlib=draw(st.booleans()),
    )


def ipr_bytes(i, e):
    b = bytearray(2 + 2 + 8 + 4 * 2 + 4 + 2 * 12 + 4 + 2 * 3 + 4 + 2 + 8 + 2 + 128 + 16 + 2 + 32 + (12 if i["version"] == 334 else 0))
    o = 0

    def put(fmt, *v):
        nonlocal o
        struct.pack_into(e + fmt, b, o, *v)
        o += struct.calcsize(e + fmt)

    put("HH8s", i["version"], 1, b"Image")
    put("4H", 1, 2, 3, 4)  # sMin sMax color presetMode
    put("I", 5)  # presetTime
    put("HHhHHhhHhHHH", 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17)
    put("f", 1.5)  # fDwell
    put("Hhh", i["kv"], 5, 35)
    put("I", i["mag"])
    put("H", 10)
    put("ff", i["x"], i["y"])
    put("H", 4)
    put("32s32s32s32s", *(t.encode() for t in i["text"]))
    put("4f", 0, 0, 0, 0)
    put("17H", 0, *range(16))
    if i["version"] == 334:
        put("3f", 1, 2, 3)
    assert o == len(b)
    return bytes(b)


def check_image(c, ctx):
    from rsciio.edax import file_reader

    e = ">" if c["big"] else "<"
    d = pathlib.Path(ctx.path("."))
    if c["line"]:
        n, nz = c["shape"]
        nx, ny = (1, n) if c["column"] else (n, 1)
        kept = max(1, n - c["unfinished"]) if n > 2 else n
    else:
        ny, nx, nz = c["shape"]
        kept = nx * ny
    a = np.random.default_rng(c["seed"]).integers(0, 256 ** c["count"], size=(ny, nx, nz), dtype=f"u{c['count']}")
    h = bytearray(c["offset"])
    struct.pack_into(e + "16s8I120s", h, 0, b"MAPSPECTRA_DATA", 1, kept, nx, ny, nz, c["count"], c["offset"], c["frames"], (c["image"] + ".bmp").encode())
    ext = "lsd" if c["line"] else "spd"
    p = d / f"{c['name']}.{ext.upper() if c['upper'] else ext}"
    p.write_bytes(bytes(h) + a.astype(f"{e}u{c['count']}").tobytes() + bytes(c["spare"]))
    kw = dict(endianness=">") if c["big"] else {}
    s = c["spc"]
    if s:
        q = d / ("other.spc" if c["spc_given"] else f"{c['name']}.spc")
        q.write_bytes(spc_bytes(s, e))
        if c["spc_given"]:
            kw["spc_fname"] = str(q)
    i = None if c["line"] else c["ipr"]
    if i:
        q = d / ("other.ipr" if c["ipr_given"] else f"{os.path.splitext(c['image'] + '.bmp')[0]}.ipr")
        q.write_bytes(ipr_bytes(i, e))
        if c["ipr_given"]:
            kw["ipr_fname"] = str(q)
    v = c["csv"] if c["line"] else None
    if v:
        lines = [f"{k}, {t}" for k, t in c["csv_header"]]
        lines += [""] * (14 - len(lines))
        lines.append("Point, Distance (nm), Si K, O K")
        for k in range(n):
            lines.append(f"{k + 1}, {v[0] + v[1] * k!r}, {k * 3}, 1")
        q = d / ("other.csv" if c["csv_given"] else f"{c['name']}.csv")
        q.write_text("\n".join(lines) + "\n", encoding="utf-8-sig" if c["bom"] else "utf-8")
        if c["csv_given"]:
            kw["csv_fname"] = str(q)
    if c["load_all"]:
        kw["load_all_spc"] = True
    if c["lazy"] and c["chunks"]:
        kw["chunks"] = (min(c["chunks"], ny), min(c["chunks"], nx), min(c["chunks"] + 1, nz))
    (r,) = ctx.sut(file_reader, p if c["pathlib"] else str(p), lazy=c["lazy"], **kw)
    sigs.check_structure(ctx, r)
    ctx.nontrivial()
    ctx.label(ext, "lazy" if c["lazy"] else "eager", "big" if c["big"] else "little", "spc" if s else "no spc")
    want = a.reshape(-1, nz)[:kept] if c["line"] else a
    got = np.asarray(sigs.compute(r["data"]))
    ctx.expect(hasattr(r["data"], "__dask_keys__") == c["lazy"], "lazy", f"{type(r['data'])}")
    ctx.expect(got.dtype.newbyteorder("=") == a.dtype and gen.arrays_equal(got.astype(a.dtype), want), "data", lambda: f"{got.dtype} {gen.short(got)} instead of {gen.short(want)}")
    if "chunks" in kw and not c["line"]:
        ctx.expect(all(max(k) <= w for k, w in zip(r["data"].chunks, kw["chunks"])), "chunks", f"{r['data'].chunks} instead of {kw['chunks']}")
    axes = r["axes"]
    ctx.expect(len(axes) == want.ndim, "number of axes", f"{axes}")
    check_energy(ctx, axes[-1], s, nz)
    if c["line"]:
        cal = [("x", kept, v[1] if v else 1, v[0] if v else 0, "nm" if v else None)]
    else:
        cal = [("y", ny, i["y"] if i else 1, 0, "µm" if i else None), ("x", nx, i["x"] if i else 1, 0, "µm" if i else None)]
    for ax, (name, size, scale, offset, units) in zip(axes, cal):
        ctx.expect(ax["name"] == name and ax["size"] == size and ax["navigate"] is True and ax["units"] == units, "navigation axis", f"{ax} instead of {name} {size} {units}")
        ctx.expect(gen.close(float(ax["scale"]), scale) and gen.close(float(ax["offset"]), offset), "navigation calibration", f"{ax} instead of {scale} {offset}")
    om = r["original_metadata"]
    ctx.expect(om["spd_header"]["nFrames"] == c["frames"] and bytes(om["spd_header"]["fName"]) == (c["image"] + ".bmp").encode(), "spd header", f"{om['spd_header']}")
    if i:
        ih = om["ipr_header"]
        ctx.expect(ih["mag"] == i["mag"] and ih["accV"] == i["kv"] and [bytes(t).decode() for t in ih["charText"]] == i["text"], "ipr header", f"{ih}")
    if v:
        ctx.expect(dict(om["csv_header"]) == dict(c["csv_header"]), "csv header", f"{om['csv_header']} instead of {c['csv_header']}")
    g = r["metadata"]["General"]
    ctx.expect(g["original_filename"] == p.name and g["title"] == ("EDS Line Scan" if c["line"] else "EDS Spectrum Image"), "general", f"{g}")
    if s:
        check_spc_metadata(ctx, r, s, c["load_all"])
    else:
        ctx.expect("Acquisition_instrument" not in r["metadata"] and "spc_header" not in om, "metadata of no spc file", f"{r['metadata']}")


PROP = Prop(
    "C32",
    "all",
    [
        Sub("spc", spectra, check_spectrum, quick=400),
        Sub("image", images, check_image, quick=1200, shards=3),
    ],
)

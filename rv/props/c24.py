"""C24: mrc files (standard, FEI, Direct Electron) by an independent encoder."""

import os
import pathlib
import struct

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

MODES = {0: "u1", 1: "i2", 2: "f4", 4: "c8", 6: "u2", 12: "f2"}
FEI = ["a_tilt", "b_tilt", "x_stage", "y_stage", "z_stage", "x_shift", "y_shift", "defocus", "exp_time", "mean_int", "tilt_axis", "pixel_size", "magnification"]
f32 = st.floats(-1000, 1000, width=32)
pos32 = st.one_of(st.sampled_from([0.0, 1.0, 10.0]), st.floats(0.01953125, 5000, width=32))


@st.composite
def headers(draw):
    return dict(
        m=draw(st.tuples(*[st.integers(0, 40)] * 3)),
        len=draw(st.tuples(pos32, pos32, pos32)),
        origin=draw(st.tuples(f32, f32, f32)),
        next=draw(st.sampled_from([0, 0, 131072, 80, 1024])),
        fei_seed=draw(gen.seeds),
        labels=draw(st.integers(0, 10)),
        tilt=draw(st.tuples(*[f32] * 6)),
    )


def fei_values(h):
    v = gen.make_array(("<f4", (1024, 13), "random", h["fei_seed"])).copy()
    v[~np.isfinite(v)] = 1.5
    v[:, 11] = np.abs(v[:, 11])
    return v


def encode(data, mode, end, h):
    """data: (NZ, NY, NX)."""
    nz, ny, nx = data.shape
    p = end
    b = struct.pack(p + "10I", nx, ny, nz, mode, 0, 0, 0, *h["m"])
    b += struct.pack(p + "6f", *h["len"], 90, 90, 90)
    b += struct.pack(p + "3I3f", 1, 2, 3, -1.0, 5.0, 2.5)
    b += struct.pack(p + "HHIH", 1, 0, h["next"], 7) + bytes(range(30))
    b += struct.pack(p + "HH", 3, 4) + bytes(range(100, 128))
    b += struct.pack(p + "6H6f", 1, 2, 3, 4, 5, 6, *h["tilt"])
    b += struct.pack(p + "3f", *h["origin"]) + b"MAP " + b"DA\0\0"
    b += struct.pack(p + "fI", 0.5, h["labels"]) + (b"label" * 200)[:800]
    assert len(b) == 1024, len(b)
    if h["next"] == 131072:
        v = fei_values(h).astype(p + "f4")
        b += b"".join(r.tobytes() + b"\0" * 76 for r in v)
    else:
        b += b"\xa5" * h["next"]
    return b + np.ascontiguousarray(data.astype(np.dtype(MODES[mode]).newbyteorder(end))).tobytes()


def write(path, data, mode, end="<", h=None):
    h = h or dict(m=(0, 0, 0), len=(0, 0, 0), origin=(0, 0, 0), next=0, labels=0, tilt=(0,) * 6)
    with open(path, "wb") as f:
        f.write(encode(data, mode, end, h))


def values(mode, shape, seed):
    return gen.make_array(("<" + MODES[mode] if mode else "u1", shape, "random", seed))


def near(a, b):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-6, atol=0, equal_nan=True)


# ---------------------------------------------------------------- standard
@st.composite
def std_cases(draw):
    nav = draw(st.sampled_from([None, None, (1,), (4,), (3, 2), (2, 3), (1, 3), (3, 1), (2, 1, 3), (2, 3, 2)]))
    return dict(
        nav=nav,
        nz=int(np.prod(nav)) if nav else draw(st.sampled_from([1, 1, 2, 5])),
        sig=draw(gen.shapes(2, 2, 1, 9)),
        mode=draw(st.sampled_from(sorted(MODES))),
        end=draw(st.sampled_from(["<", "<", ">"])),
        seed=draw(gen.seeds),
        h=draw(headers()),
        name=draw(st.sampled_from(["a.mrc", "a b[1].mrc", "movie.d/x.mrc", "x_movie.mrc"])),
        as_path=draw(st.booleans()),
        chunks=draw(st.booleans()),
    )


def std_check(c, ctx):
    from rsciio.mrc import file_reader

    nz, (ny, nx), h = c["nz"], c["sig"], c["h"]
    data = values(c["mode"], (nz, ny, nx), c["seed"])
    path = ctx.path(c["name"])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    write(path, data, c["mode"], c["end"], h)
    before = open(path, "rb").read()
    nav = c["nav"]
    dims = (*(nav[::-1] if nav else (nz,)), ny, nx)
    k = len(dims) - 3
    fei = h["next"] == 131072
    f4 = np.float32
    if fei:
        px = float(fei_values(h)[0, 11]) * 1e9
        xyz = [px, px, 1]
        off = [0, 0, 0]
    else:
        xyz = [float(f4(l) / f4(m)) / 10 if m and (l or i < 2) else 1 for i, (l, m) in enumerate(zip(h["len"], h["m"]))]
        off = [float(f4(o)) / 10 for o in h["origin"]]
    full = [dict(name="", units=None, scale=1, offset=0, navigate=True)] * k
    full = full + [
        dict(name=n, units=u, scale=s, offset=o, navigate=n == "z", _tol=(1e-6, 1e-12))
        for n, u, s, o in zip("zyx", (None, "nm", "nm"), xyz[::-1], off[::-1])
    ]
    axes = [dict(a, size=s) for a, s in zip(full, dims) if s > 1]
    exp = data.reshape([s for s in dims if s > 1])
    ctx.label(MODES[c["mode"]], c["end"], f"next{h['next']}", f"dims{exp.ndim}")
    ctx.nontrivial(exp.ndim > 1 and exp.size > 4)
    kw = {}
    if nav is not None:
        kw["navigation_shape"] = nav
    if c["chunks"]:
        kw["chunks"] = (1,) * (len(dims) - 2) + (ny, nx)
    for lazy in (False, True):
        r = ctx.sut(file_reader, pathlib.Path(path) if c["as_path"] else path, lazy=lazy, endianness=c["end"], **kw)
        ctx.expect(len(r) == 1, "count", f"{len(r)} signals")
        r = r[0]
        sigs.check_structure(ctx, r)
        # values in the byte order of the file or of the machine
        got = r["data"]
        sigs.check_data(ctx, got.astype(got.dtype.newbyteorder("=")), exp.astype(exp.dtype.newbyteorder("=")), lazy=lazy)
        sigs.check_axes(ctx, r["axes"], axes)
        om = r["original_metadata"]["std_header"]
        want = dict(NX=nx, NY=ny, NZ=nz, MODE=c["mode"], MX=h["m"][0], MZ=h["m"][2], NEXT=h["next"], CREATID=7, VD2=6, NLABL=h["labels"], CMAP=b"MAP ".hex(), EXTRA=bytes(range(30)).hex(), EXTRA2=bytes(range(100, 128)).hex())
        for key, v in want.items():
            ctx.expect(key in om and om[key] == v, "std_header", f"{key}: {om.get(key)!r} expected {v!r}")
        for key, v in dict(Xlen=h["len"][0], Zlen=h["len"][2], YORIGIN=h["origin"][1], AMAX=5.0, RMS=0.5, TILTANGLES=h["tilt"]).items():
            ctx.expect(key in om and near(om[key], v), "std_header", f"{key}: {om.get(key)!r} expected {v!r}")
        ctx.expect(("fei_header" in r["original_metadata"]) == fei, "fei_header", f"{sorted(r['original_metadata'])}")
        if fei:
            v = fei_values(h)
            for i, key in enumerate(FEI):
                ctx.expect(near(r["original_metadata"]["fei_header"][key], v[:, i]), "fei_header", key)
            m = sigs.mapped(r)
            for where, i in [("Stage.tilt_alpha", 0), ("Stage.tilt_beta", 1), ("Stage.x", 2), ("Stage.y", 3), ("Stage.z", 4), ("Detector.Camera.exposure", 8), ("magnification", 12)]:
                ctx.expect(near(sigs.get(m, "Acquisition_instrument.TEM." + where), v[:, i]), "fei-metadata", where)
        g = sigs.get(r["metadata"], "General.original_filename")
        ctx.expect(g == os.path.basename(path), "original_filename", f"{g!r}")
    ctx.expect(open(path, "rb").read() == before, "file-modified", "the file changed")


# ---------------------------------------------------------------- Direct Electron
NAMES = ["BF", "Virt 0", "ADF", "BF"]


@st.composite
def de_cases(draw):
    kind = draw(st.sampled_from(["raster", "raster", "roi", "custom", "custom", "tem", "stem", "diffraction"]))
    nx, ny = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    c = dict(kind=kind, nx=nx, ny=ny, sig=draw(gen.shapes(2, 2, 1, 7)), mode=draw(st.sampled_from([0, 1, 2, 6, 12])), seed=draw(gen.seeds))
    if kind == "custom":
        n = draw(st.integers(1, 14))
        c["pos"] = draw(st.lists(st.tuples(st.integers(0, nx - 1), st.integers(0, ny - 1)), min_size=n, max_size=n))
    c["frames"] = draw(st.sampled_from([1, 2, 5]))
    cal = st.sampled_from([None, -1, 0.25, 1, 2.5, 1e-3])
    c["cal"] = {k: draw(cal) for k in ["sx", "sy", "dx", "dy"]}
    c["time"] = draw(st.sampled_from([None, 0.5, 3]))
    c["delay"] = draw(st.sampled_from([None, 0, 1.25]))
    c["fps"] = draw(st.sampled_from([None, 700, 12.5]))
    c["sum"] = draw(st.sampled_from([None, 1, 4]))
    c["adu"] = draw(st.sampled_from([None, 51, 2.5]))
    c["extra_nav"] = draw(st.sampled_from([None, None, None, "time", "flat"])) if kind in ("raster", "roi", "stem", "tem") else None
    c["flat"] = draw(st.integers(0, 3)) == 0
    c["virtual"] = draw(st.lists(st.tuples(st.integers(0, 20), st.sampled_from(NAMES), st.sampled_from(["sum", "centroid_x"])), max_size=3, unique_by=lambda v: v[0]))
    c["external"] = draw(st.lists(st.tuples(st.integers(1, 12), st.sampled_from([None, "Ext 1", "HAADF"])), max_size=2, unique_by=lambda v: v[0]))
    c["others"] = draw(st.booleans())
    c["suffix"] = draw(st.sampled_from(["", "", "my_scan_"]))
    c["dir"] = draw(st.sampled_from(["d", "a [x]", "movie"]))
    c["how"] = draw(st.sampled_from(["auto", "auto", "explicit", "user images"]))
    c["as_path"] = draw(st.booleans())
    return c


def dedupe(names):
    out = []
    for n in names:
        i, m = 1, n
        while m in out:
            m = f"{n}_{i}"
            i += 1
        out.append(m)
    return out


def info_text(c):
    k = c["kind"]
    scanning = k in ("raster", "roi", "custom")
    big = k == "roi"
    d = {
        "Camera Model": "DESim",
        "Instrument Project Magnification": "1000",
        "Timestamp (seconds since Epoch)": "1729539410",
        "Scan - Enable": "Enable" if scanning else "Disable",
        "Scan - Type": "XY File" if k == "custom" else "Raster",
        "Scan - ROI Enable": "Enable" if big else "Disable",
        "Scan - Size X": str(64 if big else c["nx"]),
        "Scan - Size Y": str(48 if big else c["ny"]),
        "Scan - ROI Size X": str(c["nx"] if big else 77),
        "Scan - ROI Size Y": str(c["ny"] if big else 78),
        "Image Size X (pixels)": str(c["sig"][1]),
        "Image Size Y (pixels)": str(c["sig"][0]),
        "Empty": "",
    }
    if k != "raster":
        d["Instrument Project TEMorSTEM Mode"] = {"tem": 0, "stem": 1, "diffraction": 0}.get(k, 1)
        d["Instrument Project Camera Length (centimeters)"] = {"diffraction": 20}.get(k, -1)
    for key, v in [
        ("Specimen Pixel Size X (nanometers)", c["cal"]["sx"]),
        ("Specimen Pixel Size Y (nanometers)", c["cal"]["sy"]),
        ("Diffraction Pixel Size X", c["cal"]["dx"]),
        ("Diffraction Pixel Size Y", c["cal"]["dy"]),
        ("Scan - Time (seconds)", c["time"]),
        ("Scan - Repeat Delay (seconds)", c["delay"]),
        ("Frames Per Second", c["fps"]),
        ("Autosave Movie Sum Count", c["sum"]),
        ("ADUs Per Electron Bin1x", c["adu"]),
    ]:
        if v is not None:
            d[key] = v
    return d, "".join(f"{a:<64}= {b}\n" for a, b in d.items())


def de_check(c, ctx):
    from rsciio.mrc import file_reader

    base = ctx.path(c["dir"])
    os.makedirs(base, exist_ok=True)
    stem = "20251103_23389_" + c["suffix"]
    (ny, nx), kind = c["sig"], c["kind"]
    info, text = info_text(c)
    files = {"info": os.path.join(base, stem + "info.txt"), "scan": os.path.join(base, stem + "scan_coordinates.csv"), "movie": os.path.join(base, stem + "movie.mrc")}
    open(files["info"], "w").write(text)
    cal = {k: 1.0 if v in (None, -1) else v for k, v in c["cal"].items()}
    sy, sx, dy, dx = cal["sy"], cal["sx"], cal["dy"], cal["dx"]
    ysp = dict(name="y", units="nm", scale=sy, navigate=True)
    xsp = dict(name="x", units="nm", scale=sx, navigate=True)
    ksp = [dict(name="ky", units="nm^-1", scale=dy, navigate=False), dict(name="kx", units="nm^-1", scale=dx, navigate=False)]
    kw = {}
    tscale = None
    if kind == "custom":
        pos = np.array(c["pos"])
        open(files["scan"], "w").write("".join(f"{x},{y}\n" for x, y in c["pos"]))
        n = len(pos)
        count = {}
        idx = []
        for x, y in c["pos"]:
            idx.append((y, x, count.get((x, y), 0)))
            count[x, y] = count.get((x, y), 0) + 1
        rep = max(count.values())
        full = [pos[:, 1].max() + 1, pos[:, 0].max() + 1, rep]
        axes = [ysp, xsp, dict(name="repeats", units="times", scale=1.0, navigate=True)] + ksp
        frames = values(c["mode"], (n, ny, nx), c["seed"])
        data = np.zeros((*full, ny, nx), frames.dtype)
        for i, j in enumerate(idx):
            data[j] = frames[i]
        nav = full
    else:
        if c["extra_nav"] == "time":
            kw["navigation_shape"] = (c["nx"], c["ny"], 3)
        elif c["extra_nav"] == "flat":
            kw["navigation_shape"] = (c["nx"] * c["ny"],)
        u = kw.get("navigation_shape")
        if kind in ("raster", "roi") or u:
            t = dict(name="time", units="sec", navigate=True)
            if c["time"] is not None:
                t["scale"] = c["time"] + (c["delay"] or 0)
            axes = [t, ysp, xsp] + ksp
            x_, y_, t_ = (tuple(u) + (1, 1))[:3] if u else (c["nx"], c["ny"], 1)
            nav = [t_, y_, x_]
        else:
            nav = [c["frames"]]
            t = dict(name="time", units="sec", navigate=True, scale=1 / ((c["fps"] or 1) * (c["sum"] or 1)))
            axes = [t] + (ksp if kind != "tem" else [dict(ysp, navigate=False), dict(xsp, navigate=False)])
        frames = values(c["mode"], (int(np.prod(nav)), ny, nx), c["seed"])
        data = frames.reshape(*nav, ny, nx)
    write(files["movie"], frames, c["mode"])
    axes = [dict(a, size=s) for a, s in zip(axes, data.shape) if s > 1]
    navdims = [s for s in nav if s > 1]
    data = data.reshape([s for s in data.shape if s > 1])

    # other images of the same and of other acquisitions
    images = {}
    order = {}
    for group in ("virtual", "external"):
        found = []
        for item in c[group]:
            if group == "virtual":
                num, name, how = item
                fn = f"{stem}{num}_{name}_{how}.mrc"
            else:
                num, name = item
                fn = f"{stem}ext{num}" + (f"_{name}" if name else "") + ".mrc"
                name = name or f"ext{num}"
            seed = len(fn) * 1000 + num
            shape = tuple(data.shape[: len(navdims)]) if len(navdims) <= 2 else (3, 4)
            if group == "virtual" and c["flat"]:
                # all positions in one row
                shape = (int(np.prod(shape)),)
            arr = values(2, (1, *((1,) * (2 - len(shape)) + shape)), seed)
            write(os.path.join(base, fn), arr, 2)
            found.append((os.path.join(base, fn), name, arr[0]))
        found.sort()
        order[group] = found
        for label, f in zip(dedupe([f[1] for f in found]), found):
            if group == "external" or label not in images:
                images[label] = f[2]
    if c["others"]:
        other = values(2, (1, 2, 2), 5)
        write(os.path.join(base, "20251103_23390_7_BF_sum.mrc"), other, 2)
        write(os.path.join(base, stem + "final.mrc"), other, 2)
    clash = len(images) != len(order["virtual"]) + len(order["external"])
    nvirt = order["virtual"]
    filename = files["movie"]
    if c["how"] == "explicit":
        filename = os.path.join(ctx.path("elsewhere"), "x.mrc")
        os.makedirs(os.path.dirname(filename), exist_ok=True)
        os.replace(files["movie"], filename)
        kw.update(metadata_file=files["info"])
        if kind == "custom":
            kw["scan_file"] = files["scan"]
    if c["how"] in ("explicit", "user images"):
        kw["virtual_images"] = [v[0] for v in order["virtual"]][::-1]
        kw["external_images"] = [v[0] for v in order["external"]][::-1]
        images = {f"virtual_image_{i}": v[2] for i, v in enumerate(order["virtual"][::-1])}
        images.update({f"external_image_{i}": v[2] for i, v in enumerate(order["external"][::-1])})
        clash = False
        nvirt = nvirt[::-1]
    ctx.label(kind, c["how"], f"dims{data.ndim}", "images" if images else "no images")
    ctx.nontrivial(len(navdims) > 1 or bool(images))
    for lazy in (False, True):
        r = ctx.sut(file_reader, pathlib.Path(filename) if c["as_path"] else filename, lazy=lazy, **kw)[0]
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], data, lazy=lazy)
        sigs.check_axes(ctx, r["axes"], axes)
        md = r["metadata"]
        om = sigs.get(r["original_metadata"], "de_metadata")
        ctx.expect(om == {k: str(v) for k, v in info.items()}, "de_metadata", f"{om}")
        for where, v in [
            ("Acquisition_instrument.TEM.detector", "DESim"),
            ("Acquisition_instrument.TEM.magnification", "1000"),
            ("Signal.quantity", "$e^-$"),
            ("General.original_filename", os.path.basename(filename)),
        ]:
            ctx.expect(sigs.get(md, where) == v, "de-metadata", f"{where}: {sigs.get(md, where)!r} expected {v!r}")
        g = sigs.get(md, "Signal.Noise_properties.gain_factor")
        ctx.expect(gen.close(g, 1 / (c["adu"] or 1)), "gain", f"{g}")
        navs = sigs.get(md, "_HyperSpy.navigators") or {}
        if not clash:
            ctx.expect(sorted(navs) == sorted("_sig_" + k for k in images), "navigators", f"{sorted(navs)} expected {sorted(images)}")
            for k, v in images.items():
                sigs.check_structure(ctx, navs["_sig_" + k])
                got = np.asarray(navs["_sig_" + k]["data"])
                ctx.expect(gen.arrays_equal(got.ravel(), v.ravel()), "navigator-data", f"{k}: {gen.short(got)} expected {gen.short(v)}")
        if nvirt and 0 < len(navdims) <= 2 and len(axes) == len(data.shape) and int(np.prod(navdims)) > 1 and (kind in ("raster", "roi", "custom") or kw.get("navigation_shape")):
            main = sigs.get(md, "_HyperSpy._sig_navigator")
            ctx.expect(main is not None, "navigator", "no navigator")
            ctx.expect(np.shape(main["data"]) == tuple(navdims), "navigator-shape", f"{np.shape(main['data'])} expected {navdims}")
            ctx.expect(gen.arrays_equal(np.asarray(main["data"]), nvirt[0][2].reshape(navdims)), "navigator", f"{main['data']}")


PROP = Prop(
    "C24",
    "the image has at least two dimensions and more than four values, or the movie has at least two navigation dimensions or related images",
    [
        Sub("standard", std_cases, std_check, quick=350),
        Sub("direct electron", de_cases, de_check, quick=350),
    ],
    assumptions=[
        "the values of the time axis without 'Scan - Time' in the info file are not compared",
        "names shared by virtual and external images are not compared",
    ],
)

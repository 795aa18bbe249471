"""C21: Velox EMD files (images, stacks, FFT/DPC, spectra, EDS event streams, EELS maps) by an independent writer."""

import json
import os
import time
import uuid

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "NST3:30"]
SYMBOLS = "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn".split()
FFT = {
    "fft-even": [("realFloatHalfEven", "<f4"), ("imagFloatHalfEven", "<f4")],
    "fft-odd": [("realFloatHalfOdd", "<f4"), ("imagFloatHalfOdd", "<f4")],
    "dpc": [("realFloat", "<f4"), ("imagFloat", "<f4")],
}
# name: kind of operation, its description (D: the path of the image, O: another path)
OPERATIONS = {
    "iDPC": ("SurfaceReconstructionOperation", dict(dataPath="D", integrationMode="true", enableFilter="false")),
    "dDPC": ("SurfaceReconstructionOperation", dict(dataPath="D", integrationMode="false", enableFilter="false", unfilteredDataPath="O")),
    "Filtered iDPC": ("SurfaceReconstructionOperation", dict(dataPath="D", integrationMode="true", enableFilter="true", unfilteredDataPath="O")),
    "Filtered dDPC": ("SurfaceReconstructionOperation", dict(dataPath="D", integrationMode="false", enableFilter="true")),
    "iDPC unfiltered": ("SurfaceReconstructionOperation", dict(dataPath="O", integrationMode="true", enableFilter="true", unfilteredDataPath="D")),
    "dDPC unfiltered": ("SurfaceReconstructionOperation", dict(dataPath="O", integrationMode="false", enableFilter="true", unfilteredDataPath="D")),
    "A-C": ("MathematicsOperation", dict(dataPath="D", outputs=[{"inputIndex": "0"}])),
    "B-D": ("MathematicsOperation", dict(dataPath="D", outputs=[{"inputIndex": "1"}])),
    "DCFI": ("IntegrationOperation", dict(dataPath="D")),
    "Unrecognized_image_signal": (None, {}),
}
pos = st.floats(min_value=1e-12, max_value=1e3, allow_nan=False)
num = st.floats(min_value=-1e3, max_value=1e3, allow_nan=False, allow_subnormal=False)
unix = st.one_of(st.integers(0, 2_000_000_000), st.integers(10**12, 2 * 10**12).map(lambda v: v / 1000))


@st.composite
def calib(draw, reciprocal=False):
    u = draw(st.sampled_from(["1/m"] if reciprocal else ["m", "m", "m", "nm", ""]))
    lo, hi = (1e5, 1e12) if reciprocal else ((1e-13, 1e-3) if u == "m" else (1e-3, 1e4))
    p = st.floats(min_value=lo, max_value=hi, allow_nan=False)
    o = st.floats(min_value=-100 * hi, max_value=100 * hi, allow_nan=False, allow_subnormal=False)
    return dict(w=draw(p), h=draw(p), x=draw(o), y=draw(o), unit=u)


@st.composite
def image(draw, shape=None):
    dt = draw(st.sampled_from(["u1", "u2", "u2", "i2", "u4", "i4", "f4", "f4", "fft-even", "fft-odd", "dpc"]))
    return dict(
        dt=dt,
        shape=shape or (draw(st.integers(2, 6)), draw(st.integers(2, 6))),
        n=draw(st.sampled_from([1, 1, 1, 2, 3])),
        seed=draw(gen.seeds),
        cal=draw(calib(reciprocal=dt.startswith("fft"))),
        frame_time=draw(st.floats(min_value=1e-3, max_value=500)),
        stem=draw(st.booleans()),
        det=draw(st.integers(0, 2)),
        label=draw(st.one_of(st.none(), gen.text(max_size=8, min_size=1))),
        op=draw(st.sampled_from(["input", "input"] + sorted(OPERATIONS))),
    )


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["images", "images", "spectra", "maps", "maps", "maps"]))
    c = dict(
        kind=kind,
        version=draw(st.sampled_from([8, 11])),
        zone=draw(st.sampled_from(ZONES)),
        unix=draw(unix),
        acq=draw(st.sampled_from(["start", "start", "camera"])),
        optics=dict(hv=draw(pos), cl=draw(pos), mag=draw(pos), tilt=(draw(num), draw(num)), xyz=(draw(num), draw(num), draw(num))),
        gain=draw(st.one_of(st.none(), st.tuples(pos, num))),
        instr=draw(gen.text(max_size=8, min_size=1)),
        lazy_chunks=draw(st.booleans()),
        elements=draw(st.one_of(st.none(), st.just([]), st.lists(st.integers(1, 30), min_size=1, max_size=4, unique=True))),
        select=draw(st.sampled_from([None, None, None, "image", "images", "single_spectrum", "spectrum_image"])),
        rebin=draw(st.sampled_from([1, 1, 2, 4])),
        load_stack=draw(st.booleans()),
    )
    if kind == "images":
        c["images"] = draw(st.lists(image(), min_size=1, max_size=3))
        c["spectra"] = []
    else:
        shape = (draw(st.integers(1, 5)), draw(st.integers(2, 5)))
        c["images"] = draw(st.lists(image(shape=shape), min_size=1 if kind == "maps" else 0, max_size=3)) if kind == "maps" else []
        c["spectra"] = [
            dict(n=draw(st.sampled_from([1, 1, 2, 3])), ch=draw(st.sampled_from([4, 8, 64])), seed=draw(gen.seeds), disp=draw(st.sampled_from([5, 10, 20])), off=draw(st.integers(-500, 500)))
            for _ in range(draw(st.integers(0 if kind == "maps" else 1, 2)))
        ]
    if kind == "maps":
        frames = draw(st.integers(1, 5))
        c["si"] = dict(
            shape=shape,
            frames=frames,
            recorded=draw(st.sampled_from([True, True, False])),
            ch=draw(st.sampled_from([4, 8, 16, 4096])),
            final_gate=draw(st.booleans()),
            detectors=[
                dict(seed=draw(gen.seeds), density=draw(st.sampled_from([0.0, 0.3, 2.0])), disp=draw(st.sampled_from([5, 10])), off=draw(st.sampled_from([-250, 0, 100])))
                for _ in range(draw(st.integers(1, 3)))
            ],
            cal=draw(calib()),
            frame_time=draw(st.floats(min_value=1e-3, max_value=500)),
        )
        c["first"] = draw(st.integers(0, frames - 1))
        c["last"] = draw(st.one_of(st.none(), st.integers(c["first"] + 1, frames)))
        c["sum_frames"] = draw(st.booleans())
        c["sum_det"] = draw(st.booleans())
        c["SI_dtype"] = draw(st.sampled_from([None, None, "u1", "u4", "f4"]))
        c["eels"] = [
            dict(seed=draw(gen.seeds), ch=draw(st.integers(2, 6)), disp=draw(pos), off=draw(num), dt=draw(st.sampled_from(["u2", "f4"])))
            for _ in range(draw(st.sampled_from([0, 0, 1, 2])))
        ]
        c["eels_line"] = draw(st.booleans()) and bool(c["eels"])
        c["same_det"] = draw(st.booleans())
    return c


def uid(seed, k):
    return uuid.UUID(int=(np.random.default_rng(seed).integers(0, 2**62).item() << 64) + k).hex


def metadata(c, cal, det_index, detectors, frame_time=None, binary=True):
    o = c["optics"]
    stamp = repr(c["unix"])
    acq = {"AcquisitionDatetime": {"DateTime": "0"}, "BeamType": ""}
    if c["acq"] == "start":
        acq["AcquisitionStartDatetime"] = {"DateTime": stamp}
    md = {
        "Core": {"guid": "0"},
        "Instrument": {"InstrumentClass": c["instr"]},
        "Acquisition": acq,
        "Optics": {"AccelerationVoltage": repr(o["hv"]), "CameraLength": repr(o["cl"])},
        "Stage": {"Position": dict(zip("xyz", map(repr, o["xyz"]))), "AlphaTilt": repr(o["tilt"][0]), "BetaTilt": repr(o["tilt"][1])},
        "Scan": {"ScanSize": {"width": "128", "height": "128"}},
        "Detectors": {f"Detector-{i}": d for i, d in enumerate(detectors)},
        "CustomProperties": {
            "StemMagnification": {"type": "double", "value": repr(o["mag"])},
            "Detectors[BM-Ceta].TimeStamp": {"type": "long", "value": repr(c["unix"] * 1e6)},
        },
        "BinaryResult": {"DetectorIndex": str(det_index), "Detector": detectors[det_index]["DetectorName"]},
    }
    if frame_time is not None:
        md["Scan"]["FrameTime"] = repr(frame_time)
    if cal is not None:
        md["BinaryResult"].update(
            PixelSize={"width": repr(cal["w"]), "height": repr(cal["h"])},
            Offset={"x": repr(cal["x"]), "y": repr(cal["y"])},
            PixelUnitX=cal["unit"],
            PixelUnitY=cal["unit"],
        )
    return md


def md_array(md):
    a = np.zeros((6000, 1), "u1")
    b = json.dumps(md).encode()
    a[: len(b), 0] = list(b)
    return a


def img_data(im):
    shape = im["shape"] + (im["n"],)
    if im["dt"] in FFT:
        a = np.zeros(shape, FFT[im["dt"]])
        for i, k in enumerate(a.dtype.names):
            a[k] = gen.make_array(("f4", shape, "random", im["seed"] + i))
        return a
    return gen.make_array((im["dt"], shape, "random" if im["dt"] != "f4" else "arange", im["seed"]))


def counts(d, si):
    """(frames, y, x, channels) X-ray counts of a detector."""
    rng = np.random.default_rng(d["seed"])
    shape = (si["frames"],) + si["shape"]
    out = np.zeros(shape + (si["ch"],), int)
    n = rng.poisson(d["density"], shape)
    events = []
    for i in np.ndindex(shape):
        ev = rng.integers(0, si["ch"], n[i])
        if n[i] and rng.random() < 0.4:
            ev[:] = ev[0]
        if n[i] and rng.random() < 0.2:
            ev[0] = si["ch"] - 1
        np.add.at(out[i], ev, 1)
        events.append(np.append(ev, 65535))
    s = np.concatenate(events)
    return out, (s if si["final_gate"] else s[:-1]).astype("u2")


def js(group, name, d):
    import h5py

    group.create_dataset(name, data=np.array([json.dumps(d)], dtype=object), dtype=h5py.string_dtype())


def write(c, path):
    """Write the file; returns lists of (kind, info) in the order of the file."""
    import h5py

    dets = [
        {"DetectorName": "HAADF", "DetectorType": "ScanningDetector", "ExposureTime": "0.25"},
        {"DetectorName": "BM-Ceta", "DetectorType": "ImagingDetector", "ExposureTime": "0.5"},
        {"DetectorName": "DF4", "DetectorType": "ScanningDetector", "ExposureTime": "2"},
    ]
    if c["gain"]:
        for d in dets:
            d.update(Gain=repr(c["gain"][0]), Offset=repr(c["gain"][1]))
    out = dict(images=[], spectra=[], streams=[], eels=[])
    with h5py.File(path, "w") as f:
        js(f, "Version", {"format": "Velox", "version": str(c["version"])})
        data = f.create_group("Data")
        for i, im in enumerate(c["images"]):
            k = uid(im["seed"], i)
            g = data.create_group("Image/" + k)
            a = img_data(im)
            g.create_dataset("Data", data=a, chunks=a.shape[:2] + (1,))
            g.create_dataset("Metadata", data=md_array(metadata(c, im["cal"], im["det"], dets, im["frame_time"] if im["stem"] else None)))
            out["images"].append((k, im, a))
        for i, s in enumerate(c["spectra"]):
            k = uid(s["seed"], 100 + i)
            g = data.create_group("Spectrum/" + k)
            a = gen.make_array(("u4", (s["ch"], s["n"]), "random", s["seed"]))
            g.create_dataset("Data", data=a, chunks=a.shape)
            eds = dets + [{"DetectorName": "SuperXG21", "Dispersion": str(s["disp"]), "OffsetEnergy": str(s["off"])}]
            g.create_dataset("Metadata", data=md_array(metadata(c, None, 3, eds)))
            out["spectra"].append((k, s, a))
        if c["kind"] == "maps":
            si = c["si"]
            eds = dets + [
                {"DetectorName": "SuperXG2%d" % i, "Dispersion": str(d["disp"]), "OffsetEnergy": str(d["off"])} for i, d in enumerate(si["detectors"])
            ]
            g = data.create_group("SpectrumImage/" + uid(0, 500))
            g.create_dataset("Data", data=np.zeros((4, 1), "u1"))
            g.create_dataset("Metadata", data=md_array(metadata(c, si["cal"], 3, eds, si["frame_time"])))
            if si["recorded"]:
                js(g, "SpectrumImageSettings", {"startFramePosition": "1", "endFramePosition": str(si["frames"])})
            for i, d in enumerate(si["detectors"]):
                k = uid(d["seed"], 200 + i)
                n, stream = counts(d, si)
                g = data.create_group("SpectrumStream/" + k)
                js(g, "AcquisitionSettings", {"encoding": "uint16", "bincount": str(si["ch"]), "StreamEncoding": "uint16", "Size": "1048576", "RasterScanDefinition": {"Width": "128", "Height": "128"}})
                g.create_dataset("Data", data=stream[:, None], chunks=(max(len(stream) // 3, 1), 1))
                g.create_dataset("Metadata", data=np.repeat(md_array(metadata(c, si["cal"], 3 + i, eds, si["frame_time"])), si["frames"], 1))
                out["streams"].append((k, d, n))
            for i, e in enumerate(c["eels"]):
                k = uid(e["seed"], 300 + i)
                y, x = si["shape"]
                a = gen.make_array((e["dt"], (x, e["ch"]) if c["eels_line"] else (x, e["ch"], y), "arange", e["seed"]))
                g = data.create_group("EelsSpectrumImage/" + k)
                g.create_dataset("Data", data=a)
                g.create_dataset("Metadata", data=md_array(metadata(c, None, 1, dets)))
                g.create_dataset("AcquisitionMetadata", data=md_array({"Data": {"dispersion": e["disp"], "offset": e["off"]}, "Type": "EelsAcquisitionMetadata"}))
                out["eels"].append((k, e, a))
        labels = {k: im["label"] for k, im, a in out["images"] if im["label"] is not None}
        quant = {uid(1, 400): {"elementSelection": [str(z) for z in c["elements"]]} if c["elements"] else {"x": "y"}} if c["elements"] is not None else None
        if c["version"] >= 11:
            f.create_group("SharedProperties/ImageSeriesDataReference")
            f.create_group("Displays/ImageDisplay")
            js(f["Displays/ImageDisplay"], uid(2, 600), {"id": "CM", "title": "ColorMix"})
            for k, lab in labels.items():
                js(f["SharedProperties/ImageSeriesDataReference"], k[::-1], {"dataPath": "/Data/Image/" + k})
                js(f["Displays/ImageDisplay"], "d" + k, {"data": "/SharedProperties/ImageSeriesDataReference/" + k[::-1], "id": lab, "title": lab})
            for k, v in (quant or {}).items():
                js(f.require_group("SharedProperties/EDSSpectrumQuantificationSettings"), k, v)
        else:
            f.create_group("Presentation/Displays/ImageDisplay")
            f.create_group("Operations")
            for k, lab in labels.items():
                js(f["Presentation/Displays/ImageDisplay"], "d" + k, {"dataPath": "/Data/Image/" + k, "display": {"label": lab}})
            for k, im, a in out["images"]:
                name = dets[im["det"]]["DetectorName"]
                if im["dt"].startswith("fft"):
                    js(f["Operations"].require_group("FftOperation"), k[::-1], {"imageOutputPath": "/Data/Image/" + k})
                elif im["dt"] == "dpc":
                    js(f["Operations"].require_group("DpcOperation"), k[::-1], {"dataPath": "/Data/Image/" + k})
                elif im["op"] != "input":
                    kind, op = OPERATIONS[im["op"]]
                    op = {a: {"D": "/Data/Image/" + k, "O": "/Data/Image/" + uid(im["seed"], 700)}.get(v, v) if isinstance(v, str) else v for a, v in op.items()}
                    if kind:
                        js(f["Operations"].require_group(kind), k[::-1], op)
                elif im["det"] == 1:
                    js(f["Operations"].require_group("CameraInputOperation"), k[::-1], {"dataPath": "/Data/Image/" + k, "cameraName": name})
                else:
                    js(f["Operations"].require_group("StemInputOperation"), k[::-1], {"dataPath": "/Data/Image/" + k, "detector": name})
            for k, v in (quant or {}).items():
                js(f["Operations"].require_group("ImageQuantificationOperation"), k, v)
    for v in out.values():
        v.sort(key=lambda e: e[0])
    return out, dets


_ureg = None


def base(value, unit):
    global _ureg
    if _ureg is None:
        import pint

        _ureg = pint.UnitRegistry()
    if unit in ("", None):
        return value, ""
    q = _ureg.Quantity(value, unit).to_base_units()
    return q.magnitude, str(q.units)


def check_axis(ctx, a, name, size, scale, offset, unit, navigate):
    ctx.expect(a["name"] == name and a["size"] == size and a["navigate"] == navigate, "axis", f"{a} expected {name} {size} {navigate}")
    for k, v in (("scale", scale), ("offset", offset)):
        g, e = base(float(a[k]), a.get("units")), base(v, unit)
        tol = 1e-9 * max(abs(e[0]), 1e-3 * abs(base(scale, unit)[0]))
        ctx.expect(g[1] == e[1] and abs(g[0] - e[0]) <= tol, "axis-" + k, f"{name}: {a[k]} {a.get('units')} expected {v} {unit}")


def dense(x):
    v = x.compute() if hasattr(x, "__dask_keys__") else x
    return np.asarray(v.todense() if hasattr(v, "todense") else v)


def check_md(ctx, c, r, title):
    t = time.localtime(c["unix"])
    md = sigs.mapped(r)
    g = md["General"]
    if title is not None:
        ctx.expect(g.get("title") == title, "title", f"{g.get('title')!r} expected {title!r}")
    ctx.expect(g["original_filename"] == "a.emd", "filename", g["original_filename"])
    if title == "EELS":
        return md
    ctx.expect(g["date"] == time.strftime("%Y-%m-%d", t), "date", f"{g['date']} expected {time.strftime('%Y-%m-%d', t)}")
    ctx.expect(g["time"][:8] == time.strftime("%H:%M:%S", t) and g["time"][8:9] in ("", "."), "time", f"{g['time']} expected {time.strftime('%H:%M:%S', t)}")
    ctx.expect("+" not in g["time"] and "-" not in g["time"], "time", g["time"])
    o = c["optics"]
    for k, v in {
        "beam_energy": o["hv"] / 1e3,
        "camera_length": o["cl"] * 1e3,
        "microscope": c["instr"],
        "Stage.tilt_alpha": round(np.degrees(o["tilt"][0]), 3),
        "Stage.tilt_beta": round(np.degrees(o["tilt"][1]), 3),
        "Stage.x": round(o["xyz"][0], 6),
        "Stage.y": round(o["xyz"][1], 6),
        "Stage.z": round(o["xyz"][2], 6),
    }.items():
        got = sigs.get(md, "Acquisition_instrument.TEM." + k)
        ok = got == v if isinstance(v, str) else got is not None and gen.close(got, v, 1e-12, 1e-9)
        ctx.expect(ok, "metadata", f"{k}: {got!r} expected {v!r}")
    return md


def check(c, ctx):
    old = os.environ.get("TZ")
    os.environ["TZ"] = c["zone"]
    time.tzset()
    try:
        _check(c, ctx)
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


def _check(c, ctx):
    from rsciio.emd import file_reader

    p = ctx.path("a.emd")
    content, dets = write(c, p)
    kw = dict(select_type=c["select"], rebin_energy=c["rebin"], load_SI_image_stack=c["load_stack"])
    if c["kind"] == "maps":
        kw.update(first_frame=c["first"], last_frame=c["last"], sum_frames=c["sum_frames"], sum_EDS_detectors=c["sum_det"])
        if c["SI_dtype"]:
            kw["SI_dtype"] = np.dtype(c["SI_dtype"])
    ctx.label(c["kind"], f"v{c['version']}", f"select={c['select']}")
    if c["kind"] == "maps":
        ctx.label(f"sum_frames={c['sum_frames']}", f"detectors={len(content['streams'])}")
        ctx.nontrivial(c["select"] in (None, "spectrum_image") and sum(n.sum() for _, _, n in content["streams"]) > 2)
    else:
        ctx.nontrivial(c["select"] is None)
    for lazy in (False, True):
        res = ctx.sut(file_reader, p, lazy=lazy, **kw)
        i = 0

        def take():
            nonlocal i
            ctx.expect(i < len(res), "count", f"{len(res)} signals only")
            i += 1
            sigs.check_structure(ctx, res[i - 1])
            ctx.expect(hasattr(res[i - 1]["data"], "__dask_keys__") == lazy, "lazy-type", f"{type(res[i - 1]['data'])}")
            return res[i - 1]

        if c["select"] in (None, "single_spectrum"):
            for k, s, a in content["spectra"]:
                check_spectrum(ctx, c, take(), s, a)
        if c["select"] in (None, "image", "images"):
            for k, im, a in content["images"]:
                check_image(ctx, c, take(), k, im, a, dets)
        if c["kind"] == "maps" and c["select"] in (None, "spectrum_image"):
            for k, e, a in content["eels"]:
                check_eels(ctx, c, take(), e, a)
            streams = content["streams"]
            for group in ([streams] if c["sum_det"] else [[s] for s in streams]):
                check_si(ctx, c, take(), group, lazy)
        ctx.expect(i == len(res), "count", f"{len(res)} signals, {i} expected")


def check_spectrum(ctx, c, r, s, a):
    e = a.T if s["n"] > 1 else a[:, 0]
    sigs.check_data(ctx, r["data"], e)
    ax = list(r["axes"])
    if s["n"] > 1:
        check_axis(ctx, ax.pop(0), "Stack", s["n"], 1, 0, "", True)
    check_axis(ctx, ax[0], "Energy", s["ch"], s["disp"] / 1000, s["off"] / 1000, "keV", False)
    md = check_md(ctx, c, r, "EDS")
    ctx.expect(md["Signal"]["signal_type"] == "EDS_TEM", "signal-type", "")
    check_elements(ctx, c, md)


def check_elements(ctx, c, md):
    got = sigs.get(md, "Sample.elements")
    want = None if c["elements"] is None else [SYMBOLS[z - 1] for z in c["elements"]]
    ctx.expect(got == want, "elements", f"{got} expected {want}")


def check_image(ctx, c, r, k, im, a, dets):
    if im["dt"] in FFT:
        re, imag = a.dtype.names
        a = (a[re] + 1j * a[imag]).astype("c8")
    a = np.moveaxis(a, -1, 0)
    n = im["n"] if (c["kind"] == "images" or c["load_stack"]) else 1
    e = a[:n] if n > 1 else a[0]
    v = dense(r["data"])
    ctx.expect(r["data"].shape == e.shape and v.shape == e.shape, "image-shape", f"{r['data'].shape} expected {e.shape}")
    ctx.expect(np.array_equal(v, e), "image-data", lambda: f"{gen.short(v)} expected {gen.short(e)}")
    ctx.expect((v.dtype.kind == "c") == (im["dt"] in FFT), "image-dtype", f"{v.dtype}")
    ax = list(r["axes"])
    if n > 1:
        t = im["frame_time"] if im["stem"] else float(dets[im["det"]]["ExposureTime"])
        check_axis(ctx, ax.pop(0), "Time", n, t, 0, "s", True)
    cal = im["cal"]
    check_axis(ctx, ax[0], "y", im["shape"][0], cal["h"], cal["y"], cal["unit"], False)
    check_axis(ctx, ax[1], "x", im["shape"][1], cal["w"], cal["x"], cal["unit"], False)
    ctx.expect(ax[0]["units"] == ax[1]["units"], "axis-units", f"{ax}")
    title = dets[im["det"]]["DetectorName"]
    if c["version"] < 11 and im["dt"] in FFT:
        title = "DPC" if im["dt"] == "dpc" else "Half FFT"
    elif c["version"] < 11 and im["op"] != "input":
        title = im["op"].split(" unfiltered")[0]
        ctx.label("op=" + im["op"])
    if im["label"] is not None and c["kind"] == "maps":
        title = im["label"]
    md = check_md(ctx, c, r, title)
    if c["gain"] and (c["version"] >= 11 or (im["dt"] not in FFT and im["op"] == "input")):
        for key, v in zip(("gain_factor", "gain_offset"), c["gain"]):
            got = sigs.get(md, "Signal.Noise_properties.Variance_linear_model." + key)
            ctx.expect(got == v, "gain", f"{key} {got} expected {v}")
    ctx.expect(r["original_metadata"]["BinaryResult"]["DetectorIndex"] == str(im["det"]), "original_metadata", "")


def check_si(ctx, c, r, group, lazy):
    si = c["si"]
    last = c["last"] if c["last"] is not None else si["frames"]
    n = sum(g[2] for g in group)[c["first"] : last]
    if c["sum_frames"]:
        n = n.sum(0)
    n = n.reshape(n.shape[:-1] + (-1, c["rebin"])).sum(-1)
    v = dense(r["data"])
    ctx.expect(r["data"].shape == n.shape and v.shape == n.shape, "si-shape", f"{r['data'].shape} {v.shape} expected {n.shape}")
    dt = np.dtype(c["SI_dtype"] or "u2")
    ctx.expect(v.dtype == dt and r["data"].dtype == dt, "si-dtype", f"{v.dtype} expected {dt}")
    ctx.expect(np.array_equal(v, n), "si-data", lambda: f"counts {np.argwhere(v != n)[:5].tolist()} {v[v != n][:5]} expected {n[v != n][:5]}")
    if lazy:
        s = r["data"][..., : max(n.shape[-1] // 2, 1)]
        ctx.expect(np.array_equal(dense(s), n[..., : max(n.shape[-1] // 2, 1)]), "si-slice", "")
    ax = list(r["axes"])
    if not c["sum_frames"]:
        check_axis(ctx, ax.pop(0), "Time", n.shape[0], si["frame_time"], 0, "s", True)
    cal = si["cal"]
    check_axis(ctx, ax[0], "y", si["shape"][0], cal["h"], cal["y"], cal["unit"], True)
    check_axis(ctx, ax[1], "x", si["shape"][1], cal["w"], cal["x"], cal["unit"], True)
    d = group[0][1]
    check_axis(ctx, ax[2], "X-ray energy", n.shape[-1], d["disp"] / 1000 * c["rebin"], d["off"] / 1000, "keV", False)
    md = check_md(ctx, c, r, "EDS")
    ctx.expect(md["Signal"]["signal_type"] == "EDS_TEM", "signal-type", "")
    if si["recorded"] or c["last"] is None:
        got = sigs.get(md, "Acquisition_instrument.TEM.Detector.EDS.number_of_frames")
        ctx.expect(got == si["frames"], "frames", f"{got} expected {si['frames']}")
    check_elements(ctx, c, md)


def check_eels(ctx, c, r, e, a):
    si = c["si"]
    cal = si["cal"]
    sigs.check_data(ctx, r["data"], a if c["eels_line"] else a.transpose(2, 0, 1))
    ax = list(r["axes"])
    if not c["eels_line"]:
        check_axis(ctx, ax.pop(0), "y", si["shape"][0], cal["h"], cal["y"], cal["unit"], True)
    check_axis(ctx, ax[0], "x", si["shape"][1], cal["w"], cal["x"], cal["unit"], True)
    check_axis(ctx, ax[1], "Energy-loss", e["ch"], e["disp"], e["off"], "eV", False)
    md = check_md(ctx, c, r, "EELS")
    ctx.expect(md["Signal"]["signal_type"] == "EELS", "signal-type", "")


def probe_other_image(ctx):
    """An image of another shape than the map, stored after those of the map."""
    from rsciio.emd import file_reader

    cal = dict(w=1e-9, h=1e-9, x=0.0, y=0.0, unit="m")
    im = dict(dt="u2", n=1, seed=0, cal=cal, frame_time=1.0, stem=True, det=0, label=None, op="input")
    c = dict(
        kind="maps", version=11, unix=10**9, acq="start", gain=None, instr="i", elements=None, spectra=[], eels=[], eels_line=False,
        optics=dict(hv=1.0, cl=1.0, mag=1.0, tilt=(0.0, 0.0), xyz=(0.0, 0.0, 0.0)),
        images=[dict(im, shape=(2, 3)), dict(im, shape=(4, 4))],
        si=dict(shape=(2, 3), frames=1, recorded=True, ch=8, final_gate=True, detectors=[dict(seed=1, density=2.0, disp=5, off=0)], cal=cal, frame_time=1.0),
    )
    write(c, ctx.path("a.emd"))
    r = ctx.sut(file_reader, ctx.path("a.emd"))[-1]
    ctx.expect(r["data"].shape == (2, 3, 8), "si-shape", f"{r['data'].shape}")


PROP = Prop(
    "C21",
    "every signal of the file is read, or the spectrum images with more than two X-ray counts",
    [Sub("files", cases, check, quick=400, shards=8)],
    probes={"K-C21-1": probe_other_image},
)

"""C36: Tofwerk FIB-SIMS (TofDAQ) h5 files."""

import contextlib
import math
import sys

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub, Violation

SIGNALS = ["sum_spectrum", "nominal_peak_data", "additional_peak_data", "event_list", "fib_images"]
TITLES = dict(
    sum_spectrum="sum spectrum", nominal_peak_data="nominal peak data", additional_peak_data="additional peak data", event_list="event list", fib_images="FIB SE images"
)
ascii_ = st.text("abcdefgXYZ 0123.-_", max_size=10)


@st.composite
def mass_axes(draw):
    """(offset, increments): leading samples may be negative or decreasing."""
    n = draw(st.integers(2, 40))
    step = draw(st.sampled_from([0.125, 0.5, 1.0, 0.37]))
    kind = draw(st.sampled_from(["linear", "quadratic", "negative", "parabola"]))
    start = draw(st.integers(0, n // 2))
    return dict(n=n, step=step, kind=kind, start=start)


def mass_axis(c):
    i = np.arange(c["n"], dtype=float)
    if c["kind"] == "linear":
        m = i * c["step"]
    elif c["kind"] == "quadratic":
        m = (i * c["step"]) ** 2 / 4
    elif c["kind"] == "negative":
        m = (i - c["start"]) * c["step"]
    else:  # calibration with an offset: decreasing until the offset
        m = ((i - c["start"]) * c["step"]) ** 2 / 4
    return m.astype("f4")


@st.composite
def peaks(draw, n_samples):
    n = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 6, 7, 8]))
    out = []
    for _ in range(n):
        a = draw(st.integers(0, n_samples - 1))
        b = draw(st.integers(a, min(n_samples - 1, a + draw(st.sampled_from([0, 1, 3, 40])))))
        nominal = draw(st.booleans())
        label = draw(st.sampled_from(["nominal", "nominal_0", "nominal_12"])) if nominal else draw(st.sampled_from(["[194Pt]", "Si+", "", "custom nominal", "Nominal", "µ"]))
        out.append(dict(label=label, a=a, b=b, edge=draw(st.booleans()), mass=draw(st.integers(1, 400)) / 2))
    # nominal peaks are in ascending order of mass; all the masses are different
    seen, res = set(), []
    for p in out:
        if p["mass"] not in seen:
            seen.add(p["mass"])
            res.append(p)
    nom = iter(sorted((p["mass"] for p in res if p["label"].startswith("nominal"))))
    for p in res:
        if p["label"].startswith("nominal"):
            p["mass"] = next(nom)
    return res


@st.composite
def files(draw):
    m = draw(mass_axes())
    nw, ns, nx = draw(st.sampled_from([1, 2, 3, 4, 5])), draw(st.integers(1, 4)), draw(st.integers(1, 4))
    images = draw(st.integers(0, 6))
    return dict(
        m=m,
        shape=(nw, ns, nx),
        more=draw(st.integers(0, 1)),  # the event list can have one more slice
        peaks=draw(peaks(m["n"])) if draw(st.integers(0, 9)) else None,
        peak_data=draw(st.booleans()),
        events=draw(st.booleans()),
        dt=draw(st.sampled_from(["f4", "f4", "f8", "u2", "i4"])),
        seed=draw(gen.seeds),
        spectrum=draw(st.sampled_from(["f8", "f4", "u4"])),
        images=images,
        image_shape=(draw(st.integers(1, 5)), draw(st.integers(1, 5))),
        image_dt=draw(st.sampled_from(["f8", "u1", "u2"])),
        odd=draw(st.integers(0, images - 1)) if images > 2 and draw(st.booleans()) else None,
        fib_group=draw(st.booleans()),
        ratio=draw(st.sampled_from([None, 1, 2, 64])),
        rate=draw(st.sampled_from([8.333e-10, 1e-9, 5e-10])),
        waveforms=draw(st.sampled_from([1, 1, 2, 3])),
        channels=draw(st.one_of(st.none(), st.lists(st.integers(0, 1), min_size=4, max_size=4))),
        per_pixel=draw(st.sampled_from([0, 3, 12])),
        big=draw(st.sampled_from([0, 0, 300])),
        view=draw(st.one_of(st.none(), st.floats(1e-4, 10))),
        voltage=draw(st.floats(0, 5e4)),
        current=draw(st.floats(0, 1e-6)),
        pressure=draw(st.one_of(st.none(), st.lists(st.floats(0, 1e-2), min_size=1, max_size=4))),
        mode=draw(st.sampled_from(["positive", "negative"])),
        version=draw(st.sampled_from([1.99, 2.0, 1.5])),
        calib=[draw(st.integers(0, 3)), draw(gen.floats(-1e4, 1e4)), draw(gen.floats(-1e4, 1e4)), draw(st.one_of(st.none(), gen.floats(-1, 1)))],
        single=draw(st.floats(0.1, 10)),
        period=draw(st.integers(0, 10**6)),
        hardware=draw(st.one_of(st.none(), ascii_)),
        gui=draw(ascii_),
        time=draw(st.datetimes(min_value=__import__("datetime").datetime(1990, 1, 1), max_value=__import__("datetime").datetime(2090, 1, 1)).map(lambda t: t.replace(microsecond=0).isoformat())),
        tz=draw(st.one_of(st.none(), st.tuples(st.sampled_from("+-"), st.integers(0, 13), st.sampled_from([0, 30, 45])))),
        log=draw(st.sampled_from(["log", "log", "root", "none"])),
        array_attrs=draw(st.booleans()),
        saturation=draw(st.sampled_from([None, None, 1, 3])),
    )


@st.composite
def cases(draw):
    f = draw(files())
    nw = f["shape"][0]
    a = draw(st.integers(0, nw - 1))
    masses = sorted(p["mass"] for p in f["peaks"] or []) or [1.0]
    lo = draw(st.sampled_from(masses)) - draw(st.sampled_from([0, 0, 0.25, 5]))
    f["opts"] = dict(
        depth=draw(st.one_of(st.none(), st.just((a, draw(st.integers(a + 1, nw)))))),
        mz=draw(st.one_of(st.none(), st.none(), st.just((lo, lo + draw(st.sampled_from([0.25, 0.5, 3, 50, 500])))))),
        dtype=draw(st.sampled_from([None, None, "f4", "u2", "f8", "u4"])),
        lazy=draw(st.booleans()),
        chunks=draw(st.sampled_from(["auto", "auto", -1, 1, 2])),
        batch=draw(st.sampled_from([1, 1, 2, 10])),
        numba=draw(st.booleans()),
        pick=draw(st.lists(st.sampled_from(SIGNALS), min_size=1, max_size=3, unique=True)),
        bad=draw(st.sampled_from([None] * 30 + ["depth high", "depth empty", "depth negative", "mz order", "mz equal", "mz length", "signal", "root", "group"])),
    )
    return f


def limits(f, p, m):
    """Window of a peak: between two masses of the axis, or on them."""
    lo, hi = sorted((float(m[p["a"]]), float(m[p["b"]])))
    d = 0.0 if p["edge"] else 0.03125
    return lo - d, hi + d


def event_list(f):
    nw, ns, nx = f["shape"]
    rng = np.random.default_rng(f["seed"])
    out = np.empty((nw + f["more"], ns, nx), dtype=object)
    top = f["m"]["n"] * (f["ratio"] or 1)
    for i in np.ndindex(out.shape):
        n = int(rng.integers(0, f["per_pixel"] + 1))
        out[i] = rng.integers(0, min(65536, top + top // 8 + 2), n).astype("u2")
    if f["big"]:
        out[0, 0, 0] = rng.integers(0, min(65536, top), f["big"]).astype("u2")
    return out


def peak_data(f):
    return gen.make_array((f["dt"], f["shape"] + (len(f["peaks"] or []),), "rand", f["seed"]))


def image(f, i):
    shape = f["image_shape"]
    if i == f["odd"]:
        shape = (shape[0] + 1, shape[1])
    return gen.make_array((f["image_dt"], shape, "rand", f["seed"] + i))


def attr(f, v):
    return np.array([v]) if f["array_attrs"] and not isinstance(v, bytes) else v


def encode(f, path):
    import h5py

    nw, ns, nx = f["shape"]
    m = mass_axis(f["m"])
    bad = f["opts"]["bad"]
    with h5py.File(path, "w") as h:
        if bad != "root":
            h.attrs["TofDAQ Version"] = attr(f, np.float32(f["version"]))
        h.attrs["NbrWrites"] = attr(f, np.int32(nw))
        h.attrs["NbrSegments"] = attr(f, np.int32(ns))
        h.attrs["NbrPeaks"] = attr(f, np.int32(len(f["peaks"] or [])))
        h.attrs["NbrWaveforms"] = attr(f, np.int32(f["waveforms"]))
        h.attrs["IonMode"] = f["mode"].encode()
        h.attrs["FiblysGUIVersion"] = f["gui"].encode() or b"-"
        h.attrs["DAQ Hardware"] = b"xTDC4"
        h.attrs["Computer ID"] = b"PC"
        if f["channels"] is not None:
            h.attrs["Configuration File Contents"] = ("[TOFParameter]\nCh1FullScale=0.5\n" + "".join(f"Ch{i + 1}Record={c}\n" for i, c in enumerate(f["channels"])) + "Ch1Offset=3\n").encode()
        d, t = f["time"].split("T")
        if f["log"] != "none":
            y, mo, da = d.split("-")
            h.attrs["HDF5 File Creation Time"] = f"{da}.{mo}.{y} {t}".encode()
        g = h.create_group("AcquisitionLog" if bad != "group" else "Log")
        if f["log"] == "log":
            tz = "" if f["tz"] is None else f"{f['tz'][0]}{f['tz'][1]:02d}:{f['tz'][2]:02d}"
            log = np.array(
                [(0, (f["time"] + tz).encode(), b"Acquisition started"), (1, b"2031-01-01T12:00:03-05:00", b"End")],
                dtype=[("timestamp", "u8"), ("timestring", "S26"), ("logtext", "S256")],
            )
            g.create_dataset("Log", data=log)
        if f["images"] or f["fib_group"]:
            g = h.create_group("FIBImages")
            for i in reversed(range(f["images"])):
                g.create_group(f"Image{i:04d}").create_dataset("Data", data=image(f, i))
        g = h.create_group("FIBParams")
        if f["hardware"] is not None:
            g.attrs["FibHardware"] = f["hardware"].encode() or b"-"
        g.attrs["Voltage"] = attr(f, np.float64(f["voltage"]))
        g.attrs["Current"] = attr(f, np.float64(f["current"]))
        if f["view"] is not None:
            g.attrs["ViewField"] = attr(f, np.float64(f["view"]))
        if f["pressure"] is not None:
            h.create_dataset("FibParams/FibPressure/TwData", data=np.array(f["pressure"])[:, None])
        g = h.create_group("FullSpectra")
        g.attrs["MassCalibMode"] = attr(f, np.int32(f["calib"][0]))
        g.attrs["MassCalibration p1"] = attr(f, np.float64(f["calib"][1]))
        g.attrs["MassCalibration p2"] = attr(f, np.float64(f["calib"][2]))
        if f["calib"][3] is not None:
            g.attrs["MassCalibration p3"] = attr(f, np.float64(f["calib"][3]))
        g.attrs["SampleInterval"] = attr(f, np.float64(f["rate"]))
        if f["ratio"] is not None:
            g.attrs["ClockPeriod"] = attr(f, np.float64(f["rate"] / f["ratio"]))
        g.attrs["Single Ion Signal"] = attr(f, np.float64(f["single"]))
        g.create_dataset("MassAxis", data=m)
        g.create_dataset("SumSpectrum", data=spectrum(f))
        if f["saturation"]:
            g.create_dataset("SaturationWarning", data=np.zeros((nw, ns, f["saturation"]), dtype="u1"))
        if f["events"]:
            e = event_list(f)
            ds = g.create_dataset("EventList", shape=e.shape, dtype=h5py.vlen_dtype(np.uint16))
            for i in np.ndindex(e.shape):
                ds[i] = e[i]
        g = h.create_group("TimingData")
        g.attrs["TofPeriod"] = attr(f, np.int32(f["period"]))
        if f["peaks"] is not None:
            t = np.zeros(len(f["peaks"]), dtype=[("label", "S64"), ("mass", "f4"), ("lower integration limit", "f4"), ("upper integration limit", "f4")])
            for i, p in enumerate(f["peaks"]):
                t[i] = (p["label"].encode(), p["mass"], *limits(f, p, m))
            h.create_dataset("PeakData/PeakTable", data=t)
        if f["peak_data"] and f["peaks"]:
            h.create_dataset("PeakData/PeakData", data=peak_data(f), compression="gzip")


def spectrum(f):
    return gen.make_array((f["spectrum"], (f["m"]["n"],), "rand", f["seed"] + 77))


def table(f, m):
    out = []
    for p in f["peaks"]:
        lo, hi = limits(f, p, m)
        out.append(dict(label=p["label"], mass=float(p["mass"]), lower_integration_limit=float(np.float32(lo)), upper_integration_limit=float(np.float32(hi))))
    return out


def shared_edges(tab, m):
    """Masses which are the limits of two windows (assigned to one of them)."""
    m = {float(x) for x in m}
    return any(p is not q and x in m and x in (q["lower_integration_limit"], q["upper_integration_limit"]) for p in tab for q in tab for x in (p["lower_integration_limit"], p["upper_integration_limit"]))


def counts(f, tab, e, m):
    """Number of events of every pixel within each window, one by one."""
    out = np.zeros(e.shape + (len(tab),))
    ratio = f["ratio"] or 1
    for i in np.ndindex(e.shape):
        for t in e[i].tolist():
            s = t // ratio
            if s < len(m):
                x = float(m[s])
                for k, p in enumerate(tab):
                    if p["lower_integration_limit"] <= x <= p["upper_integration_limit"]:
                        out[i + (k,)] += 1
    return out


@contextlib.contextmanager
def numba(present):
    if present:
        yield
        return
    old = sys.modules.get("numba")
    sys.modules["numba"] = None
    try:
        yield
    finally:
        if old is None:
            del sys.modules["numba"]
        else:
            sys.modules["numba"] = old


def check_axes(ctx, what, sig, expected):
    """expected: [(name, size, scale, offset, units, navigate)] or (name, values, units)"""
    ax = sig["axes"]
    ctx.expect(len(ax) == len(expected), f"{what}: number of axes", ax)
    for a, e in zip(ax, expected):
        ctx.expect(a.get("name") == e[0], f"{what}: name of the axis", f"{a} for {e}")
        if len(e) == 3:
            ctx.expect("axis" in a and np.array_equal(np.asarray(a["axis"], dtype=float), e[1]), f"{what}: values of the axis", f"{a} for {e}")
            ctx.expect(a.get("units") == e[2] and not a.get("navigate"), f"{what}: axis {e[0]}", a)
        else:
            ctx.expect(a.get("size") == e[1], f"{what}: size of the axis", f"{a} for {e}")
            ctx.expect(gen.close(a.get("scale", 1), 1 if e[2] is None else e[2], 1e-9), f"{what}: scale of the axis", f"{a} for {e}")
            ctx.expect(a.get("offset", 0) == 0, f"{what}: offset of the axis", a)
            ctx.expect((a.get("units") or None) == e[3], f"{what}: units of the axis", f"{a} for {e}")
            ctx.expect(bool(a.get("navigate")) == e[4], f"{what}: navigate of the axis", f"{a} for {e}")


def expected_metadata(f, name):
    nw, ns, nx = f["shape"]
    pre = bool(f["peak_data"] and f["peaks"])
    m = mass_axis(f["m"]).astype(float)
    ok = m[np.isfinite(m) & (m > 0)]
    if pre:
        r = [p["mass"] for p in f["peaks"]]
        rng = [min(r), max(r)]
    else:
        rng = [ok.min(), ok.max()] if len(ok) else [0.0, 0.0]
    raster = nx if pre or f["events"] else ns
    w = {
        "ToF.ion_mode": f["mode"],
        "ToF.n_peaks": len(f["peaks"] or []),
        "ToF.mass_calib_mode": f["calib"][0],
        "ToF.mass_calib_p1": f["calib"][1],
        "ToF.mass_calib_p2": f["calib"][2],
        "ToF.mass_calib_p3": f["calib"][3],
        "ToF.sample_interval_s": f["rate"],
        "ToF.single_ion_signal": f["single"],
        "ToF.tof_period_samples": f["period"],
        "ToF.mass_range_Da": rng,
        "DAQ.hardware": "xTDC4",
        "DAQ.gui_version": f["gui"] or "-",
        "DAQ.computer_id": "PC",
        "n_depth_slices": nw,
        "n_segments": ns,
        "file_type": "pre-processed" if pre else "raw",
        "chamber_pressure_Pa": None if f["pressure"] is None else math.fsum(f["pressure"]) / len(f["pressure"]),
    }
    if f["view"] is not None:
        w.update(
            {
                "FIB.voltage_kV": f["voltage"] / 1000,
                "FIB.current_A": f["current"],
                "FIB.view_field_mm": f["view"],
                "FIB.pixel_size_um": f["view"] * 1000 / raster,
            }
        )
        if f["hardware"] is not None:
            w["FIB.hardware"] = f["hardware"] or "-"
    return w


def check_metadata(ctx, f, md, om, what, name):
    g = md["General"]
    ctx.expect(g["title"] == f"{name} ({TITLES[what]})", "title", g)
    ctx.expect(g["original_filename"] == name + ".h5", "original_filename", g)
    d, t = f["time"].split("T")
    if f["log"] == "none":
        ctx.expect(not g.get("date") and not g.get("time"), "date without date in the file", g)
    else:
        ctx.expect(g.get("date") == d and g.get("time") == t, "date and time", f"{g} for {f['time']}")
    zone = None
    if f["log"] == "log" and f["tz"] is not None:
        s, h, mi = f["tz"]
        zone = f"{s if h or mi else '+'}{h:02d}:{mi:02d}"
    ctx.expect(g.get("time_zone") == zone, "time zone", f"{g} for {f['tz']}")
    inst = md["Acquisition_instrument"]["FIB_SIMS"]
    for k, e in expected_metadata(f, name).items():
        v = inst
        for p in k.split("."):
            v = v.get(p) if isinstance(v, dict) else None
        if e is None:
            ctx.expect(v is None, f"metadata {k}", f"{v!r} without value in the file")
        elif isinstance(e, list):
            ctx.expect(v is not None and np.allclose(v, e, rtol=1e-6), f"metadata {k}", f"{v!r} instead of {e!r}")
        else:
            ctx.expect(gen.close(v, e, 1e-9) if isinstance(e, float) and v is not None else v == e, f"metadata {k}", f"{v!r} instead of {e!r}")
    version = inst["DAQ"]["tofdaq_version"]
    ctx.expect(np.float32(version) == np.float32(f["version"]), "metadata DAQ.tofdaq_version", version)
    ctx.expect(md["Signal"].get("signal_type") == ("" if what in ("event_list", "fib_images") else "FIB-SIMS"), "signal type", f"{md['Signal']} of {what}")
    ctx.expect(np.ravel(om["NbrWrites"])[0] == f["shape"][0] and om["IonMode"] == f["mode"], "original metadata", {k: om[k] for k in ("NbrWrites", "IonMode")})
    w = {
        "PeakTable": None if f["peaks"] is None else table(f, mass_axis(f["m"])),
        "FIBImages": [f"Image{i:04d}" for i in range(f["images"])] if f["images"] or f["fib_group"] else None,
        "SaturationWarning": dict(shape=[*f["shape"][:2], f["saturation"]], dtype="uint8") if f["saturation"] else None,
        "FullSpectra": dict(SampleInterval=f["rate"], **({} if f["ratio"] is None else dict(ClockPeriod=f["rate"] / f["ratio"]))),
        "DAQ Hardware": "xTDC4",
        "NbrWaveforms": f["waveforms"],
    }
    for k, e in w.items():
        v = om.get(k)
        if k == "NbrWaveforms":
            v = None if v is None else np.ravel(v)[0]
        d = gen.deep_diff(e, v)
        ctx.expect(not d, f"original metadata {k}", f"{v!r} instead of {e!r}")
    ctx.expect(np.array_equal(np.asarray(om["MassAxis"], dtype="f4"), mass_axis(f["m"])), "original metadata MassAxis", "")


def available(f):
    pre = bool(f["peak_data"] and f["peaks"])
    out = ["sum_spectrum"]
    if f["peaks"] and (pre or f["events"]):
        nom = [p["label"].startswith("nominal") for p in f["peaks"]]
        if any(nom):
            out.append("nominal_peak_data")
        if not all(nom):
            out.append("additional_peak_data")
    if f["events"]:
        out.append("event_list")
    if f["images"]:
        out.append("fib_images")
    return out


def check_signal(ctx, f, what, s, opts, name):
    """One signal against the contents of the file restricted by the options."""
    nw, ns, nx = f["shape"]
    pre = bool(f["peak_data"] and f["peaks"])
    m = mass_axis(f["m"])
    a, b = opts["depth"] or (0, nw)
    raster = nx if pre or f["events"] else ns
    px = None if f["view"] is None else f["view"] * 1000 / raster
    um = None if px is None else "µm"
    is_lazy = not isinstance(s["data"], np.ndarray)
    ctx.expect(is_lazy == opts["lazy"], f"{what}: lazy", type(s["data"]))
    data = np.asarray(s["data"].compute() if is_lazy else s["data"])
    check_metadata(ctx, f, s["metadata"], s["original_metadata"], what, name)
    if what == "sum_spectrum":
        first = 0
        while first < len(m) - 1 and (m[first] < 0 or m[first] >= m[first + 1]):
            first += 1
        ctx.expect(gen.arrays_equal(data, spectrum(f)[first:]), "sum spectrum: data", f"{data} instead of {spectrum(f)[first:]}")
        check_axes(ctx, what, s, [("m/z", m[first:].astype(float), "Da")])
        return
    nav = [("depth", b - a, 1, "slice", True), ("y", ns, px, um, True), ("x", nx, px, um, True)]
    if what == "event_list":
        e = event_list(f)[a:b]
        ctx.expect(data.shape == e.shape, "event list: shape", f"{data.shape} instead of {e.shape}")
        for i in np.ndindex(e.shape):
            ctx.expect(gen.arrays_equal(np.asarray(data[i]), e[i]), "event list: events", f"{data[i]} instead of {e[i]} at {i}")
        check_axes(ctx, what, s, nav)
        return
    if what == "fib_images":
        keep = [i for i in range(f["images"]) if i != f["odd"]]
        if opts["depth"] is not None:
            keep = keep[a:b]
        e = np.stack([image(f, i) for i in keep])
        ctx.expect(gen.arrays_equal(data, e), "FIB images: data", f"{data.shape} instead of {e.shape}")
        y, x = f["image_shape"]
        p = None if f["view"] is None else f["view"] * 1000 / x
        check_axes(ctx, what, s, [("depth", len(keep), 1, "slice", True), ("y", y, p, um, False), ("x", x, p, um, False)])
        return
    nominal = what == "nominal_peak_data"
    tab = table(f, m)
    sel = [i for i, p in enumerate(tab) if p["label"].startswith("nominal") == nominal]
    ctx.expect(s["metadata"]["Signal"].get("peak_table") is not None, "peak table", s["metadata"]["Signal"])
    if opts["mz"] is None:
        got = sorted(s["metadata"]["Signal"]["peak_table"], key=lambda p: p["mass"])
        ctx.expect(got == sorted((tab[i] for i in sel), key=lambda p: p["mass"]), "peak table", f"{got}")
    sel.sort(key=lambda i: tab[i]["mass"])
    if opts["mz"] is not None:
        sel = [i for i in sel if opts["mz"][0] <= tab[i]["mass"] <= opts["mz"][1]]
    check_axes(ctx, what, s, nav + [("m/z", np.array([tab[i]["mass"] for i in sel]), "Da")])
    if pre:
        e = peak_data(f)[a:b][..., sel]
        with np.errstate(all="ignore"):
            e = e.astype(opts["dtype"] or e.dtype)
        ctx.expect(gen.arrays_equal(data, e), f"{what}: data", f"{data.dtype} {data.ravel()[:8]} instead of {e.dtype} {e.ravel()[:8]}")
    else:
        ctx.expect(data.dtype == np.dtype(opts["dtype"] or "u2"), f"{what}: dtype", data.dtype)
        tab = [tab[i] for i in sel]
        if shared_edges(tab, m):
            ctx.label("windows share a limit")
            return
        ctx.label("peaks from events")
        c = counts(f, tab, event_list(f)[a:b], m)
        norm = f["waveforms"] * max(sum(f["channels"] or [0]), 1)
        e = (c / norm).astype(opts["dtype"] or "u2")
        ok = np.allclose(data, e, rtol=1e-6) if e.dtype.kind == "f" else np.array_equal(data, e)
        ctx.expect(data.shape == e.shape and ok, f"{what}: counts", f"{data.ravel()[:12]} instead of {e.ravel()[:12]}")


def selected(f, names, opts):
    """Signals left by the options."""
    out = []
    for n in names:
        if n.endswith("peak_data") and opts["mz"] is not None:
            lo, hi = opts["mz"]
            if not any(lo <= p["mass"] <= hi for p in f["peaks"] if p["label"].startswith("nominal") == n.startswith("nominal")):
                continue
        out.append(n)
    return out


def check(case, ctx):
    from rsciio.tofwerk import available_signals, file_reader

    f, o = case, case["opts"]
    path = ctx.path("acquisition.h5")
    encode(f, path)
    if o["bad"] in ("root", "group"):
        ctx.label("not a Tofwerk file")
        for fn in (file_reader, available_signals):
            refused(ctx, OSError, "not a Tofwerk file", fn, path)
        return
    av = ctx.sut(available_signals, path)
    ctx.expect(av == available(f), "available_signals", f"{av} instead of {available(f)}")
    kw = dict(lazy=o["lazy"], chunks=o["chunks"], mz_range=o["mz"], depth_range=o["depth"], dtype=o["dtype"], show_progressbar=False, peak_data_batch_size=o["batch"])
    raw_peaks = not (f["peak_data"] and f["peaks"])
    if o["bad"]:
        nw = f["shape"][0]
        kw.update(
            {
                "depth high": dict(depth_range=(0, nw + 1)),
                "depth empty": dict(depth_range=(1, 1)),
                "depth negative": dict(depth_range=(-1, nw)),
                "mz order": dict(mz_range=(5.0, 2.0)),
                "mz equal": dict(mz_range=(5.0, 5.0)),
                "mz length": dict(mz_range=(5.0,)),
                "signal": dict(signal="peaks"),
            }[o["bad"]]
        )
        ctx.label("refused option")
        refused(ctx, ValueError, o["bad"], file_reader, path, **kw)
        return
    for want in ("all", o["pick"], o["pick"][0]):
        names = av if want == "all" else [n for n in SIGNALS if n == want or n in want]
        missing = [n for n in names if n not in av]
        if missing:
            ctx.label("signal not available")
            refused(ctx, ValueError, "signal not available", file_reader, path, signal=want, **kw)
            continue
        names = selected(f, names, o)
        lazy = dict(kw)
        if o["lazy"] and raw_peaks and any(n.endswith("peak_data") for n in names):
            refused(ctx, NotImplementedError, "lazy reconstruction", file_reader, path, signal=want, **kw)
            lazy["lazy"] = False
        if "fib_images" in names and o["depth"] is not None and o["depth"][0] >= f["images"] - (f["odd"] is not None):
            ctx.label("no image in the range")
            names.remove("fib_images")
        with numba(o["numba"]):
            rs = ctx.sut(file_reader, path, signal=want, **lazy)
        titles = [r["metadata"]["General"]["title"] for r in rs]
        ctx.expect(len(rs) == len(names), "number of signals", f"{titles} instead of {names}")
        for n, r in zip(names, rs):
            sigs.check_structure(ctx, r)
            check_signal(ctx, f, n, r, dict(o, lazy=lazy["lazy"]), "acquisition")
            ctx.label(n)
        if len(names) > 1:
            ctx.nontrivial()


@st.composite
def integrations(draw):
    f = draw(files())
    f.update(events=True, peaks=draw(peaks(f["m"]["n"]).filter(bool)), more=0, array_attrs=False)
    f["order"] = draw(st.permutations(range(len(f["peaks"]))))
    f["norm"] = draw(st.sampled_from([1, 1, 2, 6]))
    f["dtype"] = draw(st.sampled_from([None, "f4", "f8", "u1", "u4"]))
    f["numba"] = draw(st.booleans())
    return f


def check_integration(f, ctx):
    """The public functions, on arrays."""
    from rsciio.tofwerk import compute_peak_data_from_eventlist, count_active_channels

    m = mass_axis(f["m"])
    tab = table(f, m)
    tab = [tab[i] for i in f["order"]]
    if shared_edges(tab, m):
        ctx.label("windows share a limit")
        return
    e = event_list(f)
    kw = {} if f["dtype"] is None else dict(dtype=np.dtype(f["dtype"]))
    with numba(f["numba"]):
        r = ctx.sut(compute_peak_data_from_eventlist, e, m, len(m), f["ratio"] or 1, f["norm"], tab, show_progressbar=False, **kw)
    w = (counts(f, tab, e, m) / f["norm"]).astype(f["dtype"] or "u2")
    ctx.expect(r.dtype == w.dtype and r.shape == w.shape, "integration: structure", f"{r.dtype} {r.shape} instead of {w.dtype} {w.shape}")
    ctx.expect(np.allclose(r, w, rtol=1e-6) if w.dtype.kind == "f" else np.array_equal(r, w), "integration: counts", f"{r.ravel()[:12]} instead of {w.ravel()[:12]}")
    ch = f["channels"] or []
    n = ctx.sut(count_active_channels, "[TOFParameter]\n" + "".join(f"Ch{i + 1}Record={c}\r\n" for i, c in enumerate(ch)))
    ctx.expect(n == max(sum(ch), 1), "active channels", f"{n} of {ch}")
    if w.any():
        ctx.nontrivial()


def refused(ctx, kind, what, fn, *a, **k):
    try:
        fn(*a, **k)
    except kind:
        return
    except Exception as e:
        raise Violation(f"{what}: error", repr(e))
    raise Violation(f"{what}: not refused", repr(k))


PROP = Prop("C36", "more than one signal was read and compared with the contents of the file, or events were counted", [Sub("tofdaq", cases, check, quick=900, shards=6), Sub("integration", integrations, check_integration, quick=240, shards=2)])

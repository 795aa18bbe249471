"""C29: Renishaw wdf files by an independent encoder."""

import datetime
import io
import os
import struct

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

NUM = {"c": "<i1", "?": "<u1", "s": "<i2", "i": "<i4", "w": "<i8", "r": "<f4", "q": "<f8", "t": "<u8"}
UNITS = ["", "1/cm", "nm", "nm", "eV", "µm", "counts", "electrons", "mm", "m", "K", "Pa", "s", "ms", "h", "d", "px", "", "", "°", "rad", "°C", "°F", "K/min", "ns", "µs"]
UNIT_NAMES = """arbitrary raman_shift wavelength nanometer electron_volt micrometer counts electrons millimeter meter kelvin pascal seconds milliseconds hours
days pixels intensity relative_intensity degrees radians celsius fahrenheit kelvin_per_minute windows_file_time microseconds""".split()
SIGNAL = {1: "Raman Shift", 2: "Wavenumber", 3: "Wavelength", 5: "Wavelength"}
DATA = """Arbitrary Spectral Intensity X Y Z Spatial_R Spatial_Theta Spatial_Phi Temperature Pressure Time Derivative Polarization FocusTrack_Z TempRampRate
SpectrumDataChecksum BitFlags ElapsedTimeIntervals Frequency""".split()
SCAN = "Unspecified Static Continuous StepRepeat FilterScan FilterImage StreamLine StreamLineHR PointDetector".split()
MEAS = "Unspecified Single Series Mapping".split()
MAPS = {0: "Unknown", 2: "column_major", 128: "xyline"}
word = st.text(alphabet="abcdefghij ABCDEéµ0123_()", min_size=1, max_size=10)
f4 = st.floats(width=32, allow_nan=False, allow_infinity=False, min_value=-1e6, max_value=1e6)
# file times: 1980 ... 2050
ticks = st.integers(119_600_000_000_00, 141_690_000_000_00).map(lambda x: x * 10_000)


# ---------------------------------------------------------------- metadata trees


def number(t):
    if t in "rq":
        return f4
    if t == "t":
        return ticks
    i = np.iinfo(NUM[t])
    return st.one_of(st.integers(int(i.min), int(i.max)), st.sampled_from([0, 1, int(i.min), int(i.max)]))


@st.composite
def entry(draw, depth):
    t = draw(st.sampled_from("csiwrqt?uubp" if depth else "csiwrqt?uub"))
    flag = 0
    if t in NUM:
        if draw(st.integers(0, 3)) == 0:
            flag, v = 128, draw(st.lists(number(t), min_size=2, max_size=4))
        else:
            v = draw(number(t))
    elif t == "u":
        v = draw(st.one_of(word, st.just("")))
        flag = draw(st.sampled_from([0, 0, 0, 64]))
    elif t == "b":
        v = draw(st.binary(max_size=5))
    else:
        v = draw(pset(depth - 1))
    # whether its key is missing, whether the key comes first
    return [t, flag, v, draw(st.sampled_from([1, 1, 1, 1, 0])), draw(st.booleans())]


def pset(depth=2):
    return st.dictionaries(word, entry(depth), max_size=4)


def encode_pset(tree, ids=None):
    out = b""
    ids = iter(range(1, 60000)) if ids is None else ids
    for k, (t, flag, v, has_key, first) in tree.items():
        n = next(ids)
        name = k.encode()
        key = b"k\0" + struct.pack("<HI", n, len(name)) + name if has_key else b""
        head = t.encode() + struct.pack("<BH", flag, n)
        if flag == 128:
            body = struct.pack("<I", len(v)) + np.array(v, NUM[t]).tobytes()
        elif t in NUM:
            body = np.array([v], NUM[t]).tobytes()
        else:
            b = encode_pset(v) if t == "p" else v if t == "b" else v.encode()
            body = struct.pack("<I", len(b)) + b
        out += key + head + body if first else head + body + key
    return out


def stamp(t):
    return (datetime.datetime(1601, 1, 1) + datetime.timedelta(seconds=t // 10_000_000)).isoformat("#")


def expected_pset(tree, lost):
    out = {}
    for k, (t, flag, v, has_key, _) in tree.items():
        if t == "t":
            r = [stamp(x) for x in v] if flag else stamp(v)
        elif t in NUM:
            r = np.array(v, NUM[t])
        elif t == "p":
            r = expected_pset(v, lost)
        elif flag == 64:
            r = None
        else:
            r = "binary: " + v.hex().upper() if t == "b" else v
        if has_key:
            out[k] = r
        else:
            lost.append(r)
    return out


def values(tree):
    for v in tree.values():
        if isinstance(v, dict):
            yield v
            yield from values(v)
        else:
            yield v


# ---------------------------------------------------------------- cases


@st.composite
def cases(draw):
    meas = draw(st.sampled_from([0, 1, 2, 3, 3, 3]))
    c = dict(meas=meas)
    if meas < 2:
        c["num"] = c["cap"] = draw(st.sampled_from([1, 1, 1, 2, 3]))
        c["orgn"] = []
    elif meas == 2:
        c["num"] = c["cap"] = draw(st.integers(2, 5))
        c["orgn"] = [draw(st.sampled_from([3, 4, 5, 9, 11, 14]))]
        c["invariant"] = draw(st.integers(0, 5)) == 0
    else:
        c["flag"] = draw(st.sampled_from(sorted(MAPS)))
        nx, ny = draw(st.integers(1, 4)), 1 if c["flag"] == 128 else draw(st.integers(1, 4))
        c["size"] = [nx, ny]
        c["cap"] = nx * ny
        c["num"] = c["cap"] if c["flag"] == 128 else draw(st.one_of(st.just(c["cap"]), st.integers(nx, nx * ny)))
        c["offset"] = draw(st.lists(f4, min_size=3, max_size=3))
        c["scale"] = draw(st.lists(st.sampled_from([1.0, -2.5, 0.125, 21.25]), min_size=3, max_size=3))
        c["orgn"] = [3, 4]
    extra = [11, 16, 17] if meas != 2 or c["orgn"] != [11] else [16, 17]
    c["orgn"] += draw(st.lists(st.sampled_from(extra), unique=True, max_size=3))
    points = draw(st.integers(2, 9))
    c.update(
        points=points,
        uniform=draw(st.booleans()),
        start=draw(st.sampled_from([0.0, 100.0, -80.5, 1500.25])),
        step=draw(st.sampled_from([1.0, -1.0, 0.5, -1.75])),
        bend=draw(st.sampled_from([0.0, 0.0, 0.01])),
        # a wrong type only warns
        xtype=[draw(st.sampled_from([1, 1, 1, 19])), draw(st.sampled_from([1, 1, 2, 3, 5, 4, 0]))],
        ylst=draw(st.one_of(st.none(), st.lists(f4, min_size=1, max_size=3))),
        orgn_unit=draw(st.one_of(st.sampled_from([5, 8, 9, 0, 10]), st.integers(0, 25))),
        high=draw(st.lists(st.booleans(), min_size=8, max_size=8)),
        annotation=draw(st.sampled_from(["", "abc", "exactly 16 chars"])),
        times=sorted(draw(st.lists(ticks, min_size=c["cap"], max_size=c["cap"]))),
        seed=draw(gen.seeds),
        app=[draw(st.integers(0, 2**16 - 1)) for _ in range(4)],
        uuid=[draw(st.integers(0, 2**32 - 1)) for _ in range(4)],
        numbers=dict(
            flags=draw(st.integers(0, 2**40)),
            ntracks=draw(st.integers(0, 9)),
            file_status_error_code=draw(st.integers(0, 9)),
            accumulations_per_spectrum=draw(st.integers(0, 99)),
        ),
        start_t=draw(ticks),
        end_t=draw(ticks),
        scan=draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 8])),
        unit=draw(st.integers(0, 25)),
        laser=draw(st.floats(1000, 30000, width=32)),
        user=draw(st.sampled_from(["", "Raman", "Zoé"])),
        title=draw(st.sampled_from(["", "Simple map scan 1", "µ" * 80])),
        sets=draw(st.dictionaries(st.sampled_from(["WXIS_0", "WXCS_0", "WXDA_0", "ZLDC_0", "WARP_0", "WARP_1", "MAP_0", "MAP_1"]), pset(), max_size=4)),
        calibration=draw(
            st.fixed_dictionaries(
                {},
                optional=dict(
                    laser=st.floats(1000, 30000, width=32),
                    grating=st.sampled_from([600, 1200, 1800]),
                    model=word,
                    temperature=st.integers(-90, 20),
                    frames=st.integers(1, 9),
                    exposure=st.integers(1, 180000),
                    crr=st.booleans(),
                ),
            )
        ),
        # where the measurement's values get their keys from
        shared=draw(st.booleans()),
        text=draw(st.one_of(st.none(), word, st.just("line 1\r\nline 2 é"))),
        order=draw(gen.seeds),
        junk=draw(st.booleans()),
        unmatched=draw(st.booleans()),
        white=draw(st.one_of(st.none(), st.fixed_dictionaries(dict(shape=st.tuples(st.integers(1, 9), st.integers(1, 9)), exif=st.booleans(), unit=st.sampled_from([1, 2, 3, 4, 5]))))),
    )
    return c


def psets(c):
    """The trees of the metadata blocks, with those that are mapped."""
    s = {k: dict(v) for k, v in c["sets"].items()}
    m = c["calibration"]

    def num(t, v):
        return [t, 0, v, 1, True]

    add = {}
    if "laser" in m:
        add["Lasers"] = ["p", 0, {"Laser 1": ["p", 0, {"Name": ["u", 0, "HeNe", 1, True], "Wavenumber": num("r", m["laser"])}, 1, True]}, 1, True]
    if "grating" in m:
        add["Gratings"] = ["p", 0, {"g": ["p", 0, {"Groove Density (lines/mm)": num("q", m["grating"])}, 1, False]}, 1, True]
    if "model" in m or "temperature" in m:
        ccd = {"CCD": ["u", 0, m["model"], 1, True]} if "model" in m else {}
        if "temperature" in m:
            ccd["Target temperature"] = num("s", m["temperature"])
        add["CCD"] = ["p", 0, ccd, 1, True]
    if add:
        s["WXCS_0"] = add | {k: v for k, v in s.get("WXCS_0", {}).items() if k not in ("Lasers", "Gratings", "CCD")}
    return s


def measurement(c):
    """The WXDM block: keys at the top, values in trees below."""
    m = c["calibration"]
    keys, vals = b"", b""
    for n, (k, t, v) in enumerate([("Accumulations", "i", m.get("frames")), ("Exposure Time", "i", m.get("exposure")), ("Use Cosmic Ray Remove", "?", m.get("crr"))]):
        if v is None:
            continue
        name = k.encode()
        keys += b"k\0" + struct.pack("<HI", 100 + n, len(name)) + name
        vals += t.encode() + struct.pack("<BH", 0, 100 + n) + np.array([v], NUM[t]).tobytes()
    inner = b"p\0" + struct.pack("<HI", 7, len(vals)) + vals
    key = b"k\0" + struct.pack("<HI", 7, 5) + b"range"
    outer = inner
    return b"p\0" + struct.pack("<HI", 9, len(outer)) + outer + b"k\0" + struct.pack("<HI", 9, 4) + b"scan" + key + keys


def block(name, uid, body):
    return name.encode().ljust(4) + struct.pack("<IQ", uid, len(body) + 16) + body


def axis_values(c):
    i = np.arange(c["points"])
    return (c["start"] + c["step"] * i * (1 + c["bend"] * i)).astype("f4")


def orgn_values(c, kind):
    rng = np.random.default_rng(c["seed"] + kind)
    if kind == 11:
        return np.array(c["times"], "u8")
    if c.get("invariant") and kind == c["orgn"][0]:
        return np.full(c["cap"], 3.5)
    return np.cumsum(rng.uniform(0.5, 2, c["cap"]))


def unit_of(c, kind):
    return 24 if kind == 11 else 0 if kind > 15 else c["orgn_unit"]


def picture(c):
    from PIL import Image

    w = c["white"]
    h, ww = w["shape"]
    a = np.full((h, ww, 3), 128, "u1")
    im = Image.fromarray(a)
    f = io.BytesIO()
    if w["exif"]:
        ex = Image.Exif()
        # of Renishaw: the position and extent of the image
        ex[0xA210], ex[0xA20E], ex[0xA20F] = w["unit"], 250.0, 125.0
        ex[0xFEA0] = (3.5, -7.25)
        im.save(f, "JPEG", exif=ex)
    else:
        im.save(f, "JPEG")
    return f.getvalue()


def encode(c):
    n = c["numbers"]
    num, cap, pts = c["num"], c["cap"], c["points"]
    y = c["ylst"] or []
    head = struct.pack("<Q4I3I2I", n["flags"], *c["uuid"], 0, 0, 0, n["ntracks"], n["file_status_error_code"])
    head += struct.pack("<IQQIIII", pts, cap, num, n["accumulations_per_spectrum"], len(y), pts, len(c["orgn"]))
    head += b"WiRE".ljust(24, b"\0") + struct.pack("<4HII", *c["app"], c["scan"], c["meas"])
    head += struct.pack("<QQIf6Q", c["start_t"], c["end_t"], c["unit"], c["laser"], *[0] * 6)
    head += c["user"].encode().ljust(32, b"\0") + c["title"].encode().ljust(160, b"\0")
    head = head.ljust(512 - 16, b"\0")
    data = np.random.default_rng(c["seed"]).normal(size=(cap, pts)).astype("<f4")
    blocks = [
        block("DATA", 0, data.tobytes()),
        block("XLST", 0, struct.pack("<2I", *c["xtype"]) + axis_values(c).astype("<f4").tobytes()),
    ]
    if y:
        blocks.append(block("YLST", 0, struct.pack("<2I", 2, 7) + np.array(y, "<f4").tobytes()))
    if c["orgn"]:
        b = struct.pack("<I", len(c["orgn"]))
        for k, high in zip(c["orgn"], c["high"]):
            b += struct.pack("<2I", k | high << 31, unit_of(c, k)) + c["annotation"].encode().ljust(16, b"\0")
            b += orgn_values(c, k).tobytes()
        blocks.append(block("ORGN", 0, b))
    if c["meas"] == 3:
        blocks.append(block("WMAP", 0, struct.pack("<2I6f4I", c["flag"], 0, *c["offset"], *c["scale"], *c["size"], 1, 5)))
    for k, t in psets(c).items():
        b = encode_pset(t)
        b = b"PSET" + struct.pack("<I", len(b)) + b
        name, uid = k.split("_")
        if name == "MAP":
            b += struct.pack("<Q", num) + data[:num, 0].tobytes()
        elif name == "WXDA":
            b += b"\n" + bytes(1024)
        blocks.append(block(name, int(uid), b))
    if c["shared"]:
        b = measurement(c)
        blocks.append(block("WXDM", 0, b"PSET" + struct.pack("<I", len(b)) + b))
    if c["text"] is not None:
        blocks.append(block("TEXT", 0, c["text"].encode()))
    if c["white"]:
        blocks.append(block("WHTL", 0, picture(c)))
    if c["junk"]:
        blocks.append(block("BKXL", 0, b"abc"))
    order = np.random.default_rng(c["order"]).permutation(len(blocks))
    return block("WDF1", 1, head) + b"".join(blocks[i] for i in order), data


def expected_axes(c):
    out = []
    if c["meas"] == 3:
        u = UNITS[c["orgn_unit"]]
        ax = [dict(name=n, units=u, navigate=True, size=s, scale=sc, offset=o) for n, s, sc, o in zip("XY", c["size"], c["scale"], c["offset"])]
        if c["num"] != c["cap"]:
            ax[1]["size"] = c["num"] // c["size"][0]
        if c["flag"] == 128:
            ax = [ax[0] | dict(name="Abs. Distance", offset=0, scale=np.hypot(*c["scale"][:2]))]
        out = ax[::-1]
    elif c["meas"] == 2:
        k = c["orgn"][0]
        a = dict(name=DATA[k], navigate=True, size=c["num"])
        v = orgn_values(c, k)[: c["num"]]
        # a non-ordered or invariant axis gets the default calibration
        if k != 14 and v[0] != v[-1]:
            v = (v - v[0] if k == 11 else v).astype("f8")
            a |= dict(units=UNITS[unit_of(c, k)], offset=v[0], scale=(v[-1] - v[0]) / (c["num"] - 1))
        out = [a]
    v = axis_values(c)
    s = dict(name=SIGNAL.get(c["xtype"][1], "Unknown"), units=UNITS[c["xtype"][1]], navigate=False, size=c["points"])
    v = v[::-1] if v[0] > v[-1] else v
    if c["uniform"]:
        scale, offset = np.polyfit(np.arange(v.size), v.astype("f8"), 1)
        s |= dict(offset=offset, scale=scale)
    else:
        s["axis"] = v
    return out + [s]


def check(c, ctx):
    from rsciio.renishaw import file_reader

    p = ctx.path("a.wdf")
    blob, data = encode(c)
    with open(p, "wb") as f:
        f.write(blob)
    num, cap, pts = c["num"], c["cap"], c["points"]
    kw = dict(use_uniform_signal_axis=True) if c["uniform"] else {}
    if c["unmatched"]:
        kw["load_unmatched_metadata"] = True
    ctx.label(MEAS[c["meas"]], "unfinished" if num != cap else "finished", "uniform" if c["uniform"] else "non-uniform")
    rs = ctx.sut(file_reader, p, **kw)
    ctx.nontrivial(cap > 1 or bool(c["sets"]))
    ctx.expect(len(rs) == 1 + bool(c["white"]), "count", f"{len(rs)} signals")
    r = rs[0]
    # --- data
    axes = expected_axes(c)
    shape = [a["size"] for a in axes]
    if c["meas"] < 2 and num > 1:
        exp = data.mean(axis=0)
    else:
        exp = data.ravel()[: int(np.prod(shape))].reshape(shape)
    if c["step"] < 0:
        exp = exp[..., ::-1]
    got = np.asarray(r["data"])
    ctx.expect(got.shape == exp.shape and got.dtype == "f4", "shape", f"{got.dtype}{got.shape} instead of {exp.shape}")
    ctx.expect(np.allclose(got, exp, rtol=1e-5, atol=1e-6) if c["meas"] < 2 else np.array_equal(got, exp), "data", lambda: f"{gen.short(got)} instead of {gen.short(exp)}")
    # --- axes
    ctx.expect(len(r["axes"]) == len(axes), "axes", f"{r['axes']}")
    for i, (a, e) in enumerate(zip(r["axes"], axes)):
        ctx.expect(a.get("index_in_array") == i, "axis-index", f"{a}")
        for k, v in e.items():
            if k in ("offset", "scale", "axis"):
                ok = k in a and np.allclose(np.asarray(a[k], "f8"), v, rtol=1e-5, atol=1e-4 if k == "offset" else 1e-9)
            else:
                ok = a.get(k) == v
            ctx.expect(ok, f"axis-{k}", lambda: f"{i}: {k} is {a.get(k)!r} instead of {v!r}")
        for k in ("offset", "scale", "units"):
            if k not in e and "axis" not in e:
                ctx.expect(a.get(k) in (None, {"offset": 0, "scale": 1}.get(k)), f"axis-{k}", f"{a}")
    # --- metadata
    o = r["original_metadata"]
    h = o["WDF1_1"]
    e = dict(
        c["numbers"],
        uuid="-".join(map(str, c["uuid"])),
        points_per_spectrum=pts,
        capacity=cap,
        num_spectra=num,
        YLST_length=len(c["ylst"] or []),
        XLST_length=pts,
        num_ORGN=len(c["orgn"]),
        app_name="WiRE",
        app_version="-".join(map(str, c["app"])),
        scan_type=SCAN[c["scan"]],
        measurement_type=MEAS[c["meas"]],
        time_start=stamp(c["start_t"]),
        time_end=stamp(c["end_t"]),
        quantity_unit=UNIT_NAMES[c["unit"]],
        laser_wavenumber=c["laser"],
        username=c["user"],
        title=c["title"],
    )
    for k, v in e.items():
        ctx.expect(h.get(k) == v, "header", lambda: f"{k}: {h.get(k)!r} instead of {v!r}")
    lost = []
    for k, t in psets(c).items():
        if not t and not k.startswith("MAP"):
            continue
        e = expected_pset(t, lost)
        if k.startswith("MAP"):
            e |= dict(npoints=num, data=data[:num, 0] if num > 1 else data[0, 0])
        d = gen.deep_diff(o.get(k), e, dtype=False)
        ctx.expect(d is None, "pset", lambda: f"{k}{d}")
    if c["unmatched"]:
        found = list(values(o["UNMATCHED"]))
        for v in lost:
            if not isinstance(v, dict) and v is not None:
                ctx.expect(any(gen.deep_diff(x, v, dtype=False) is None for x in found), "unmatched", lambda: f"{v!r} isn't in {gen.short(o['UNMATCHED'])}")
    else:
        ctx.expect("UNMATCHED" not in o, "unmatched", "given though not asked for")
    ctx.expect(o.get("TEXT_0") == c["text"], "text", f"{o.get('TEXT_0')!r}")
    if c["ylst"]:
        ctx.expect(np.array_equal(np.ravel(o["YLST_0"]["data"]), np.array(c["ylst"], "f4")), "ylst", f"{o['YLST_0']}")
    for k in c["orgn"]:
        meta = k in (16, 17) or k == 11 and not (c["meas"] == 2 and c["orgn"][0] == 11)
        if meta:
            g = o["ORGN_0"][DATA[k]]
            v = orgn_values(c, k)[:num]
            v = v - v[0] if k == 11 else v
            ctx.expect(np.array_equal(g["data"], v) and g["annotation"] == c["annotation"] and g["units"] == UNITS[unit_of(c, k)], "orgn", lambda: f"{DATA[k]}: {g} instead of {v}")
    if c["meas"] == 3:
        w = o["WMAP_0"]
        ok = w["flag"] == MAPS[c["flag"]] and np.array_equal(w["size_xyz"], [*c["size"], 1]) and np.allclose(w["scale_xyz"], c["scale"]) and np.allclose(w["offset_xyz"], c["offset"]) and w["linefocus_size"] == 5
        ctx.expect(ok, "wmap", lambda: f"{w}")
    m = r["metadata"]
    ca = c["calibration"]
    date, time = stamp(c["start_t"]).split("#")
    e = {
        "General.title": c["title"],
        "General.original_filename": "a.wdf",
        "General.date": date,
        "General.time": time,
        "Signal.quantity": f"Intensity ({UNIT_NAMES[c['unit']].capitalize()})",
    }
    A = "Acquisition_instrument."
    if "laser" in ca:
        e[A + "Laser.wavelength"] = 1e7 / ca["laser"]
    if "grating" in ca:
        e[A + "Spectrometer.Grating.groove_density"] = ca["grating"]
    if "model" in ca or "temperature" in ca:
        e[A + "Detector.detector_type"] = "CCD"
        for k in ("model", "temperature"):
            if k in ca:
                e[f"{A}Detector.{k}"] = ca[k]
        if c["shared"]:
            if "frames" in ca:
                e[A + "Detector.frames"] = ca["frames"]
                if "exposure" in ca:
                    e[A + "Detector.integration_time"] = ca["frames"] * ca["exposure"] / 1000
            if "crr" in ca:
                e[A + "Detector.processing.cosmic_ray_removal"] = ca["crr"]
    for k, v in e.items():
        g = sigs.get(m, k)
        ctx.expect(gen.close(g, v, rtol=1e-6) if isinstance(v, float) else g == v, "metadata", lambda: f"{k}: {g!r} instead of {v!r}")
    # --- image
    if c["white"]:
        i = rs[1]
        s = tuple(c["white"]["shape"])
        v = i["data"]
        ctx.expect(v.shape == s and v.dtype.names == ("R", "G", "B"), "image", f"{v.dtype}{v.shape}")
        ctx.expect(all(abs(int(x) - 128) < 4 for x in v.ravel()[0]), "image", f"{v}")
        ex = c["white"]["exif"]
        unit = {1: None, 2: "inches", 3: "cm", 4: "mm", 5: "µm"}[c["white"]["unit"]] if ex else None
        for a, n, size, fov, off in zip(i["axes"], "yx", s, (125.0, 250.0), (-7.25, 3.5)):
            ctx.expect(a["name"] == n and a["size"] == size and a["units"] == unit, "image-axes", f"{a}")
            ctx.expect(gen.close(a["scale"], fov / size if ex else 1) and gen.close(a["offset"], off if ex else 0), "image-axes", f"{a}")
        marked = sigs.get(i["metadata"], "Markers.Map.kwargs") if c["meas"] == 3 else None
        if c["meas"] == 3:
            wh = np.array(c["scale"][:2]) * c["size"]
            ok = gen.close(marked["widths"], wh[0]) and gen.close(marked["heights"], wh[1]) and np.allclose(marked["offsets"], np.array(c["offset"][:2]) + wh / 2, rtol=1e-5, atol=1e-3)
            ctx.expect(ok, "marker", f"{marked}")


def probe_time(ctx):
    """Two spectra taken one second apart, 1e9 ns."""

    c = dict(
        meas=2, num=2, cap=2, orgn=[11], points=2, uniform=False, start=0.0, step=1.0, bend=0.0, xtype=[1, 1], ylst=None, orgn_unit=5, high=[False] * 8, annotation="",
        times=[130_000_000_000_000_000, 130_000_000_010_000_000], seed=0, app=[0] * 4, uuid=[0] * 4,
        numbers=dict(flags=0, ntracks=0, file_status_error_code=0, accumulations_per_spectrum=1),
        start_t=130_000_000_000_000_000, end_t=130_000_000_010_000_000, scan=0, unit=6, laser=18797.0, user="", title="", sets={}, calibration={}, shared=False, text=None, order=0, junk=False, white=None,
    )  # fmt: skip
    with open(ctx.path("a.wdf"), "wb") as f:
        f.write(encode(c)[0])
    from rsciio.renishaw import file_reader

    a = ctx.sut(file_reader, ctx.path("a.wdf"))[0]["axes"][0]
    ctx.expect(gen.close(a["scale"] * {"ns": 1e-9, "s": 1}[a["units"]], 1.0), "time", f"{a}")


PROP = Prop(
    "C29",
    "several spectra or a metadata block",
    [Sub("files", cases, check, quick=900, shards=4)],
    probes={"K-C29-1": probe_time},
)

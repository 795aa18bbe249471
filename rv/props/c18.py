"""C18: Gatan DM3/DM4 files made by an independent encoder."""

import datetime
import struct

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

# ------------------------------------------------------------ encoder

FMT = {2: "h", 3: "l", 4: "H", 5: "L", 6: "f", 7: "d", 8: "B", 9: "b", 10: "b", 11: "q", 12: "Q"}


class Enc:
    def __init__(self, version, little):
        self.v = version
        self.e = "<" if little else ">"
        self.lq = ">q" if version == 4 else ">l"
        self.little = little

    def n(self, *values):
        return b"".join(struct.pack(self.lq, v) for v in values)

    def s(self, t, *values):
        return struct.pack(f"{self.e}{len(values)}{FMT[t]}", *values)

    def file(self, tags):
        body = self.group(tags, root=True)
        head = struct.pack(">l", self.v) + self.n(len(body) + 8) + struct.pack(">l", int(self.little))
        return head + body + b"\0" * 8

    def group(self, tags, root=False):
        items = b"".join(self.tag(name, v) for name, v in tags)
        head = b"\1\0" + self.n(len(tags))
        if root or self.v == 3:
            return head + items
        return struct.pack(">q", len(head) + len(items)) + head + items

    def tag(self, name, v):
        name = name.encode("utf8")
        if v[0] == "group":
            return b"\x14" + struct.pack(">h", len(name)) + name + self.group(v[1])
        info, values = self.value(v)
        body = b"%%%%" + self.n(len(info), *info) + values
        if self.v == 4:
            body = struct.pack(">q", len(body)) + body
        return b"\x15" + struct.pack(">h", len(name)) + name + body

    def value(self, v):
        k = v[0]
        if k == "simple":
            return [v[1]], self.s(v[1], v[2])
        if k == "str18":
            return [18, len(v[1])], v[1]
        if k == "array":
            return [20, v[1], len(v[2])], self.s(v[1], *v[2])
        if k == "u16":
            b = v[1].encode("utf-16-le" if self.little else "utf-16-be", "surrogatepass")
            return [20, 4, len(b) // 2], b
        if k == "raw":  # (infoarray, bytes)
            return v[1], v[2]
        if k == "struct":
            info = [15, 0, len(v[1])]
            for t, _ in v[1]:
                info += [0, t]
            return info, b"".join(self.s(t, x) for t, x in v[1])
        if k == "structs":
            info = [20, 15, 0, len(v[1])]
            for t in v[1]:
                info += [0, t]
            return info + [len(v[2])], b"".join(self.s(t, x) for row in v[2] for t, x in zip(v[1], row))
        if k == "strs":
            return [20, 18, v[1], len(v[2])], b"".join(v[2])
        if k == "arrays":
            return [20, 20, v[1], v[2], len(v[3])], b"".join(self.s(v[1], *row) for row in v[3])
        raise ValueError(k)


def scalar(t, x):
    return bytes([x % 256]) if t == 9 else x


def text18(b):
    try:
        return b.decode("utf8")
    except UnicodeDecodeError:
        return b.decode("latin-1")


def plain(v):
    """The Python value expected for an encoded one."""
    k = v[0]
    if k == "simple":
        return scalar(v[1], v[2])
    if k == "str18":
        return text18(v[1])
    if k == "u16":
        return v[1] if v[1] else []
    if k == "array":
        if v[1] == 4 and v[2]:
            return struct.pack(f"<{len(v[2])}H", *v[2]).decode("utf-16-le", "surrogatepass")
        return [scalar(v[1], x) for x in v[2]]
    if k == "struct":
        return tuple(scalar(t, x) for t, x in v[1])
    if k == "structs":
        return [tuple(scalar(t, x) for t, x in zip(v[1], row)) for row in v[2]]
    if k == "strs":
        return [text18(b) for b in v[2]]
    if k == "arrays":
        # an inner array of unsigned shorts is a string as well
        return [plain(("array", v[1], row)) for row in v[3]]
    if k == "group":
        return tree(v[1])
    raise ValueError(k)


def tree(tags):
    out, nd, ng = {}, 0, 0
    for name, v in tags:
        name = name.replace(".", "")
        if not name and v[0] == "group":
            name, ng = f"TagGroup{ng}", ng + 1
        elif not name:
            name, nd = f"Data{nd}", nd + 1
        out[name] = plain(v)
    return out


# ------------------------------------------------------------ tag values

RANGE = {
    2: (-(2**15), 2**15 - 1),
    3: (-(2**31), 2**31 - 1),
    4: (0, 2**16 - 1),
    5: (0, 2**32 - 1),
    8: (0, 255),
    9: (-128, 127),
    10: (-128, 127),
    11: (-(2**63), 2**63 - 1),
    12: (0, 2**64 - 1),
}


def simple(t):
    if t == 6:
        return st.floats(width=32, allow_nan=False)
    if t == 7:
        return st.floats(allow_nan=False)
    return st.integers(*RANGE[t])


types = st.sampled_from([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
u16text = gen.text(max_size=9)


@st.composite
def values(draw, depth=2):
    k = draw(st.sampled_from(["simple", "simple", "u16", "u16", "str18", "array", "struct", "structs", "strs", "arrays"] + ["group"] * 3 * (depth > 0)))
    if k == "simple":
        t = draw(types)
        return (k, t, draw(simple(t)))
    if k == "u16":
        return (k, draw(u16text))
    if k == "str18":
        return (k, draw(st.one_of(u16text.map(lambda s: s.encode("utf8")), st.binary(max_size=6))))
    if k == "array":
        t = draw(types)
        el = simple(t) if t != 4 else st.one_of(st.integers(0, 0xD7FF), st.integers(0xE000, 0xFFFF))
        return (k, t, draw(st.lists(el, max_size=5)))
    if k == "struct":
        ts = draw(st.lists(types, min_size=1, max_size=4))
        return (k, [(t, draw(simple(t))) for t in ts])
    if k == "structs":
        ts = draw(st.lists(types, min_size=1, max_size=3))
        return (k, ts, [[draw(simple(t)) for t in ts] for _ in range(draw(st.integers(0, 3)))])
    if k == "strs":
        n = draw(st.integers(0, 4))
        return (k, n, [draw(st.binary(min_size=n, max_size=n)) for _ in range(draw(st.integers(0, 3)))])
    if k == "arrays":
        t = draw(types)
        n = draw(st.integers(0, 3))
        el = simple(t) if t != 4 else st.integers(1, 0xD7FF)
        return (k, t, n, [[draw(el) for _ in range(n)] for _ in range(draw(st.integers(0, 3)))])
    return (k, draw(tags(depth - 1)))


names = st.one_of(
    st.just(""),
    st.sampled_from(["Exposure (s)", "Stage.X", "µ angle", "Frame[0]", "a b", "Number of frames", "items", "keys", "[x]", "2nd", "Data"]),
    gen.text(min_size=1, max_size=8).filter(lambda s: not s.startswith("__")),
)


@st.composite
def tags(draw, depth=2):
    out, seen = [], set()
    for _ in range(draw(st.integers(0, 4))):
        n = draw(names)
        key = n.replace(".", "")
        if n and (not key or key in seen or key.startswith(("Data", "TagGroup")) and key != "Data"):
            continue
        seen.add(key)
        out.append((n, draw(values(depth))))
    return out


# ------------------------------------------------------------ images

# DM data type: (numpy dtype, tag type of the data array)
DT = {1: ("i2", 2), 2: ("f4", 6), 3: ("c8", (6, 6)), 6: ("u1", 8), 7: ("i4", 3), 9: ("i1", 10), 10: ("u2", 4), 11: ("u4", 5), 12: ("f8", 7), 13: ("c16", (7, 7)), 14: ("?", 8), 8: ("rgba", 3), 23: ("rgba", 3)}
f4 = st.floats(min_value=-1e5, max_value=1e5, width=32, allow_subnormal=False)
UN = ["nm", "µm", "1/nm", "eV", "eV", "keV", "s", "", None]

stage = st.fixed_dictionaries({}, optional={"Stage " + k: f4 for k in ("Alpha", "Beta", "X", "Y", "Z")})
info = st.fixed_dictionaries(
    {},
    optional={
        "Voltage": st.sampled_from([200000.0, 80000.0, 5000.0]),
        "Stage Position": stage,
        "Illumination Mode": st.sampled_from(["TEM", "STEM", "SEM", "STEM NANOPROBE", "NANO"]),
        "Imaging Mode": st.sampled_from(["DIFFRACTION", "MAG"]),
        "Probe Current (nA)": f4,
        "STEM Camera Length": f4,
        "Indicated Magnification": f4,
        "Name": st.sampled_from(["Titan", ""]),
        "Microscope": st.sampled_from(["JEOL", "[]"]),
    },
)
stamp = st.datetimes(min_value=datetime.datetime(1990, 1, 1), max_value=datetime.datetime(2060, 1, 1)).map(lambda d: d.replace(microsecond=0))


# sources of the date and time, all with the same stamp
DATES = ["bar", "si", "eels", "eds", "cl", "begin"]
cathodo = st.fixed_dictionaries(
    {},
    optional={
        "mode": st.sampled_from(["Parallel dispersive", "Serial dispersive", "Image"]),
        "acq": st.fixed_dictionaries(
            {},
            optional={
                "Dispersion grating (lines/mm)": f4,
                "Central wavelength (nm)": f4,
                "Exposure (s)": f4,
                "Number of frames": st.integers(1, 9),
                "Saturation fraction": f4,
                "Dwell time (s)": f4,
                "Start wavelength (nm)": f4,
                "Step-size (nm)": f4,
                "Integration time (s)": f4,
            },
        ),
        "high": st.fixed_dictionaries({}, optional={"Binning": st.tuples(f4, f4), "CCD Read Area": st.tuples(f4, f4, f4, f4), "Processing": st.sampled_from(["Gain normalized", "Dark subtracted"])}),
        "pixel": st.one_of(st.tuples(f4, f4), f4.map(lambda v: (v, v))),
        "monarc": st.fixed_dictionaries({}, optional={"Grating": st.sampled_from(["1200", "600.5", "mirror", ""]), "Bandpass": f4, "PMT HV": f4}),
        "name": st.sampled_from(["2D Array", "Line Scan"]),
        "drift": st.tuples(st.integers(1, 30), st.sampled_from(["row(s)", "s"])),
    },
)


@st.composite
def image(draw):
    nd = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    shape = tuple(draw(st.integers(1, 5)) for _ in range(nd))
    n_cal = nd if draw(st.integers(0, 4)) else draw(st.integers(1, nd))
    return dict(
        shape=shape,
        dt=draw(st.sampled_from(sorted(DT))),
        mode=draw(gen.modes),
        seed=draw(gen.seeds),
        cal=[dict(Origin=draw(f4), Scale=draw(f4.filter(lambda v: v != 0)), Units=draw(st.sampled_from(UN))) for _ in range(n_cal)],
        bright=dict(Origin=draw(f4), Scale=draw(f4), Units=draw(st.sampled_from(["", "e-", "counts"]))),
        name=draw(st.one_of(st.none(), u16text)),
        fmt=draw(st.sampled_from([None, None, "Spectrum image", "Spectrum", "Image"])),
        signal=draw(st.sampled_from([None, None, "EELS", "EELS", "X-ray", "CL"])),
        spim=draw(st.sampled_from([None, None, None, None, "eels", "cl"])),
        monarc=draw(st.integers(0, 9)) == 0,
        info=draw(st.one_of(st.none(), info)),
        session=draw(st.fixed_dictionaries({}, optional={"Operator": u16text, "Specimen": u16text, "Microscope": st.sampled_from(["ARM", "", "[]"])})),
        bar=draw(st.one_of(st.none(), stamp)),
        dates=draw(st.one_of(st.just(["bar"]), st.lists(st.sampled_from(DATES), min_size=1, max_size=4, unique=True))),
        cl=draw(st.one_of(st.just({}), cathodo)),
        digiscan=draw(st.one_of(st.none(), f4)),
        acq=draw(st.one_of(st.none(), st.fixed_dictionaries({}, optional={"Integration time (s)": f4, "Exposure (s)": f4, "Number of frames": st.integers(1, 9)}))),
        angles=draw(st.fixed_dictionaries({}, optional={"Collection semi-angle (mrad)": f4, "Convergence semi-angle (mrad)": f4})),
        aperture=draw(st.sampled_from([None, "5 mm", "2.5mm", "unknown", ""])),
        camera=draw(st.one_of(st.none(), f4)),
        eds=draw(st.fixed_dictionaries({}, optional={"Live time": f4, "Real time": f4, "Solid angle": f4, "Azimuthal angle": f4, "Elevation angle": f4})),
        stack=draw(st.integers(0, 7)) == 0,
        extra=draw(tags(1)),
    )


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    return dict(
        version=draw(st.sampled_from([3, 4])),
        little=draw(st.integers(0, 2)) > 0,
        images=[draw(image()) for _ in range(n)],
        thumbs=draw(st.sets(st.integers(0, n), max_size=2)),
        order=draw(st.sampled_from([None, None, "C", "F"])),
        chunks=draw(st.sampled_from(["auto", "auto", 2, -1])),
        root=draw(tags(2)),
        optimize=draw(st.booleans()),
    )


def num(v):
    return ("simple", 11 if isinstance(v, int) and abs(v) > 2**30 else 3 if isinstance(v, int) else 6, v)


def dtag(d):
    out = []
    for k, v in d.items():
        out.append((k, ("group", dtag(v)) if isinstance(v, dict) else ("u16", v) if isinstance(v, str) else ("struct", [(6, x) for x in v]) if isinstance(v, tuple) else num(v)))
    return out


def stamps(im):
    w = im["bar"]
    return (f"{w.month}/{w.day}/{w.year}", w.strftime("%I:%M:%S %p")) if w else (None, None)


def image_tags(im):
    t = []
    cl = im["cl"]
    meta = {k: v for k, v in (("Format", im["fmt"]), ("Signal", im["signal"]), ("Acquisition Mode", cl.get("mode"))) if v}
    day, clock = stamps(im)

    def dated(source, d=()):
        d = dict(d or {})
        if day and source in im["dates"]:
            d |= {"Acquisition Date": day, "Acquisition Time": clock} if source == "bar" else {"Acquisition begin": f"{day} {clock}"} if source == "begin" else {"Date": day, "Start time": clock}
        return d

    if meta:
        t.append(("Meta Data", ("group", dtag(meta))))
    if im["spim"]:
        t.append(("spim", ("group", [(im["spim"], ("group", dtag({"a": 1})))])))
    acq = {}
    if im["camera"] is not None:
        acq["Parameters"] = {"Detector": {"exposure (s)": im["camera"]}}
    if "high" in cl:
        acq.setdefault("Parameters", {})["High Level"] = cl["high"]
    if "pixel" in cl:
        acq["Device"] = {"CCD": {"Pixel Size (um)": cl["pixel"]}}
    if im["monarc"]:
        acq["Monarc Spectrometer"] = {"Slit Width": 2.0} | cl.get("monarc", {})
    if acq:
        t.append(("Acquisition", ("group", dtag(acq))))
    if im["info"] is not None:
        t.append(("Microscope Info", ("group", dtag(im["info"]))))
    if im["session"]:
        t.append(("Session Info", ("group", dtag(im["session"]))))
    if dated("bar"):
        t.append(("DataBar", ("group", dtag(dated("bar")))))
    si = dated("si")
    if "name" in cl:
        si["SI Application Mode"] = {"Name": cl["name"]}
    if "drift" in cl:
        si["Artefact Correction"] = {"Spatial Drift": {"Periodicity": cl["drift"][0], "Units": cl["drift"][1]}}
    if si:
        t.append(("SI", ("group", dtag({"Acquisition": si}))))
    a = dated("begin", dated("cl", cl.get("acq", {})))
    if a:
        t.append(("CL", ("group", dtag({"Acquisition": a}))))
    if im["digiscan"] is not None:
        t.append(("DigiScan", ("group", dtag({"Sample Time": im["digiscan"]}))))
    eels = {}
    if im["acq"] is not None or dated("eels"):
        eels["Acquisition"] = dated("eels", im["acq"])
    if im["angles"]:
        eels["Experimental Conditions"] = im["angles"]
    if eels:
        t.append(("EELS", ("group", dtag(eels))))
    if im["aperture"] is not None:
        t.append(("EELS Spectrometer", ("group", dtag({"Aperture label": im["aperture"], "Instrument name": "GIF"}))))
    eds = {k: v for k, v in im["eds"].items() if "angle" not in k or k == "Solid angle"}
    info = {k: v for k, v in im["eds"].items() if k not in eds}
    if info:
        eds["Detector Info"] = info
    if dated("eds"):
        eds["Acquisition"] = dated("eds")
    if eds:
        t.append(("EDS", ("group", dtag(eds))))
    used = {"Meta Data", "spim", "Acquisition", "Microscope Info", "Session Info", "DataBar", "SI", "CL", "DigiScan", "EELS", "EELS Spectrometer", "EDS", "source"}
    extra = [(k, v) for k, v in im["extra"] if k.replace(".", "").replace("_", " ") not in used]
    t += extra
    if im["stack"]:
        # made by the stack builder: the tags of the sources one level down
        t = [x for x in t if x[0] in ("Meta Data", "spim", "Acquisition", "SI")] + [
            ("source", ("group", [("Tags at creation", ("group", t))])),
        ]
    return t


def pixels(im, e):
    kind, tt = DT[im["dt"]]
    n = int(np.prod(im["shape"]))
    if kind == "rgba":
        a = np.random.default_rng(im["seed"]).integers(0, 256, (n, 4), dtype="u1")
        return a, [20, 3, n], a.tobytes()
    a = gen.make_array((kind, im["shape"], im["mode"], im["seed"])).ravel()
    b = a.astype(np.dtype(kind).newbyteorder(e)).tobytes()
    if isinstance(tt, tuple):
        return a, [20, 15, 0, 2, 0, tt[0], 0, tt[1], n], b
    return a, [20, tt, n], b


def tail(im, e):
    _, inf, b = pixels(im, e)
    dim = [("", ("group", [("Origin", num(c["Origin"])), ("Scale", num(c["Scale"])), ("Units", ("u16", c["Units"] or ""))])) for c in im["cal"]]
    br = im["bright"]
    data = [
        (
            "Calibrations",
            ("group", [("Brightness", ("group", [("Origin", num(br["Origin"])), ("Scale", num(br["Scale"])), ("Units", ("u16", br["Units"]))])), ("Dimension", ("group", dim))]),
        ),
        ("Data", ("raw", inf, b)),
        ("DataType", ("simple", 5, im["dt"])),
        ("Dimensions", ("group", [("", ("simple", 5, s)) for s in im["shape"][::-1]])),
        ("PixelDepth", ("simple", 5, len(b) // max(1, int(np.prod(im["shape"]))))),
    ]
    out = [("ImageData", ("group", data)), ("ImageTags", ("group", image_tags(im)))]
    if im["name"] is not None:
        out.append(("Name", ("u16", im["name"])))
    return out


def signal_type(im):
    if im["signal"] == "X-ray":
        return "EDS_TEM"
    if im["signal"] == "CL" or im["monarc"]:
        return "CL"
    if im["signal"] == "EELS" or im["spim"] == "eels":
        return "EELS"
    return ""


def expected_axes(im):
    nd = len(im["shape"])
    cal = im["cal"] + [dict(Origin=0.0, Scale=1.0, Units="")] * (nd - len(im["cal"]))
    cal = cal[:nd][::-1]
    units = [c["Units"] or "" for c in cal]
    st_ = signal_type(im)
    special = {"EELS": ("eV", "Energy loss"), "EDS_TEM": ("keV", "Energy"), "CL": ("nm", "Wavelength")}.get(st_)
    nm = [None] * nd
    free = list(range(nd))
    if special and special[0] in units:
        i = units.index(special[0])
        nm[i] = special[1]
        free.remove(i)
    for i, x in zip(free[::-1], "xyz"):
        nm[i] = x
    spectrum = im["fmt"] in ("Spectrum image", "Spectrum") or im["spim"]
    nav = [True] * nd
    nsig = 1 if nd == 1 or (spectrum and nd == 2) else 2
    nav[nd - nsig :] = [False] * nsig
    return [
        dict(name=nm[i], units=units[i], scale=c["Scale"], offset=-c["Origin"] * c["Scale"], size=im["shape"][i], navigate=nav[i], _tol=(1e-9, 1e-9))
        for i, c in enumerate(cal)
    ]


def expected_md(im):
    """Mapped metadata (path -> value), as HyperSpy applies the mapping."""
    m = {}
    st_ = signal_type(im)
    inf = im["info"]
    mode = None
    if inf and "Illumination Mode" in inf:
        v = inf["Illumination Mode"]
        mode = "STEM" if "STEM" in v else "SEM" if "SEM" in v else "TEM"
    mic = "SEM" if mode == "SEM" else "TEM"
    I = f"Acquisition_instrument.{mic}."
    known = {"bar", "si"} | {"EELS": {"eels"}, "EDS_TEM": {"eds"}, "CL": {"cl", "begin"}}.get(st_, set())
    if im["bar"] and known & set(im["dates"]):
        m["General.date"] = im["bar"].date().isoformat()
        if known & set(im["dates"]) != {"begin"}:
            m["General.time"] = im["bar"].time().isoformat()
    s = im["session"]
    if s.get("Operator"):
        m["General.authors"] = s["Operator"]
    if s.get("Specimen"):
        m["Sample.description"] = s["Specimen"]
    if inf is not None:
        if "Voltage" in inf:
            m[I + "beam_energy"] = inf["Voltage"] / 1e3
        for k, p, f in (("Alpha", "tilt_alpha", 1), ("Beta", "tilt_beta", 1), ("X", "x", 1e-3), ("Y", "y", 1e-3), ("Z", "z", 1e-3)):
            if "Stage " + k in inf.get("Stage Position", {}):
                m[I + "Stage." + p] = inf["Stage Position"]["Stage " + k] * f
        if mode:
            m[I + "acquisition_mode"] = mode
        if "Probe Current (nA)" in inf:
            m[I + "beam_current"] = inf["Probe Current (nA)"]
        if inf.get("Illumination Mode") == "TEM":
            if "Indicated Magnification" in inf:
                m[I + ("camera_length" if inf.get("Imaging Mode") == "DIFFRACTION" else "magnification")] = inf["Indicated Magnification"]
        else:
            if "STEM Camera Length" in inf:
                m[I + "camera_length"] = inf["STEM Camera Length"]
            if "Indicated Magnification" in inf:
                m[I + "magnification"] = inf["Indicated Magnification"]
        for v in (s.get("Microscope"), inf.get("Name"), inf.get("Microscope")):
            if v and v != "[]":
                m[I + "microscope"] = v
                break
    if st_ == "EELS":
        for k, p in (("Collection semi-angle (mrad)", "Detector.EELS.collection_angle"), ("Convergence semi-angle (mrad)", "convergence_angle")):
            if k in im["angles"]:
                m["Acquisition_instrument.TEM." + p] = im["angles"][k]
        a = im["acq"]
        if a is not None:
            t = a.get("Integration time (s)")
            if t is None and "Exposure (s)" in a:
                t = a["Exposure (s)"] * a.get("Number of frames", 1)
            if t is not None:
                m["Acquisition_instrument.TEM.Detector.EELS." + ("exposure" if im["digiscan"] is None else "dwell_time")] = t
            if "Number of frames" in a:
                m["Acquisition_instrument.TEM.Detector.EELS.frame_number"] = a["Number of frames"]
        if im["aperture"] is not None:
            m["Acquisition_instrument.TEM.Detector.EELS.spectrometer"] = "GIF"
            if im["aperture"] in ("5 mm", "2.5mm"):
                m["Acquisition_instrument.TEM.Detector.EELS.aperture_size"] = float(im["aperture"].replace("mm", ""))
    elif st_ == "EDS_TEM":
        for k, v in im["eds"].items():
            m["Acquisition_instrument.TEM.Detector.EDS." + k.lower().replace(" ", "_").replace("azimuthal", "azimuth")] = v
    elif st_ == "CL":
        if im["fmt"]:
            m["Signal.format"] = im["fmt"]
        if im["digiscan"] is not None:
            m[I + "dwell_time"] = im["digiscan"] / 1e6
        cl = im["cl"]
        S, D = "Acquisition_instrument.Spectrometer.", "Acquisition_instrument.Detector."
        if im["monarc"]:
            m[S + "entrance_slit_width"] = 2.0
            mc = cl.get("monarc", {})
            if mc.get("Grating") in ("1200", "600.5"):
                m[S + "Grating.groove_density"] = float(mc["Grating"])
            if "Bandpass" in mc:
                m[S + "bandpass"] = mc["Bandpass"]
            if "PMT HV" in mc:
                m[D + "pmt_voltage"] = mc["PMT HV"]
        if "mode" in cl:
            m[S + "acquisition_mode"] = cl["mode"]
            kind = {"Parallel dispersive": "CCD", "Serial dispersive": "PMT"}.get(cl["mode"])
            if kind:
                m[D + "detector_type"] = kind
        a = cl.get("acq", {})
        for k, p in {
            "Dispersion grating (lines/mm)": S + "Grating.groove_density",
            "Central wavelength (nm)": S + "central_wavelength",
            "Exposure (s)": D + "exposure_per_frame",
            "Number of frames": D + "frames",
            "Saturation fraction": D + "saturation_fraction",
            "Start wavelength (nm)": S + "start_wavelength",
            "Step-size (nm)": S + "step_size",
        }.items():
            if k in a:
                m[p] = a[k]
        for t in (a.get("Dwell time (s)"), a.get("Integration time (s)"), a["Exposure (s)"] * a.get("Number of frames", 1) if "Exposure (s)" in a else None):
            if t is not None:
                m[D + "integration_time"] = t
                break
        for k, p in (("Binning", "binning"), ("CCD Read Area", "sensor_roi"), ("Processing", "processing")):
            if k in cl.get("high", {}):
                m[D + p] = cl["high"][k]
        if "pixel" in cl:
            x, y = cl["pixel"]
            m[D + "pixel_size"] = x if x == y else (x, y)
        if "name" in cl:
            m["Acquisition_instrument.Spectrum_image.mode"] = cl["name"]
        if "drift" in cl:
            m["Acquisition_instrument.Spectrum_image.drift_correction_periodicity"] = cl["drift"][0]
            m["Acquisition_instrument.Spectrum_image.drift_correction_units"] = cl["drift"][1]
    elif im["digiscan"] is not None:
        m[I + "dwell_time"] = im["digiscan"] / 1e6
    elif im["camera"] is not None:
        m["Acquisition_instrument.TEM.Camera.exposure"] = im["camera"]
    u = im["bright"]["Units"]
    q = "Intensity"
    if u == "e-":
        q, u = "Electrons", "Counts"
    if st_ == "EDS_TEM":
        q = "X-rays"
    m["Signal.quantity"] = q + (f" ({u})" if u else "")
    m["Signal.Noise_properties.Variance_linear_model.gain_factor"] = im["bright"]["Scale"]
    m["Signal.Noise_properties.Variance_linear_model.gain_offset"] = im["bright"]["Origin"]
    return m


def flatten(d, p=""):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update(flatten(v, p + k + "."))
        else:
            out[p + k] = v
    return out


def apply_mapping(r):
    return flatten(sigs.mapped(dict(r, metadata={})))


class Recorder:
    def __init__(self):
        self.calls = []

    def to_signal1D(self, optimize=None):
        self.calls.append(("to_signal1D", optimize))
        return self

    def squeeze(self):
        self.calls.append("squeeze")
        return self


def check(c, ctx):
    from rsciio.digitalmicrograph import file_reader

    e = "<" if c["little"] else ">"
    enc = Enc(c["version"], c["little"])
    ims = c["images"]
    thumbs = sorted(t for t in c["thumbs"] if t < len(ims))
    root = [(k, v) for k, v in c["root"] if k.replace(".", "") not in ("ImageList", "Thumbnails", "")]
    t = list(root)
    if c["thumbs"]:
        t.append(("Thumbnails", ("group", [("", ("group", [("ImageIndex", ("simple", 5, i))])) for i in sorted(c["thumbs"])])))
    t.insert(len(root) // 2, ("ImageList", ("group", [("", ("group", tail(im, e))) for im in ims])))
    p = ctx.path("a.dm%d" % c["version"])
    with open(p, "wb") as f:
        f.write(enc.file(t))
    ctx.label(f"dm{c['version']}", "little" if c["little"] else "big", f"images{len(ims)}")
    kept = [im for i, im in enumerate(ims) if i not in thumbs]
    rgba = any(DT[im["dt"]][0] == "rgba" for im in kept)
    ctx.nontrivial(len(kept) > 0 and any(np.prod(im["shape"]) > 1 for im in kept))
    for lazy in (False, True):
        if lazy and rgba:
            continue
        rs = ctx.sut(file_reader, p, lazy=lazy, order=c["order"], optimize=c["optimize"], chunks=c["chunks"])
        ctx.expect(len(rs) == len(kept), "count", f"{len(rs)} signals for {len(kept)} images")
        for im, r in zip(kept, rs):
            sigs.check_structure(ctx, r)
            a, _, _ = pixels(im, "<")
            kind = DT[im["dt"]][0]
            ctx.label(kind, f"nd{len(im['shape'])}", signal_type(im))
            order = c["order"] or "C"
            if kind == "rgba":
                n = a[:, [2, 1, 0, 3]].copy().view([(k, "u1") for k in "RGBA"])[:, 0]
                exp = n.reshape(im["shape"], order=order)
                ctx.expect(r["data"].dtype == exp.dtype and np.array_equal(r["data"], exp), "data", "rgba")
            else:
                sigs.check_data(ctx, r["data"], a.reshape(im["shape"], order=order), lazy=lazy, dtype="value")
            sigs.check_axes(ctx, r["axes"], expected_axes(im))
            md = r["metadata"]
            ctx.expect(md["General"]["title"] == (im["name"] or ""), "title", f"{md}")
            ctx.expect(md["General"]["original_filename"] == "a.dm%d" % c["version"], "filename", f"{md}")
            ctx.expect(md["Signal"]["signal_type"] == signal_type(im), "signal-type", f"{md}")
            om = dict(r["original_metadata"])
            il = om.pop("ImageList")
            ctx.expect(list(il) == ["TagGroup0"], "image-list", f"{list(il)}")
            om.pop("Thumbnails", None)
            om.pop("root", None)
            d = gen.deep_diff(om, tree(root))
            ctx.expect(d is None, "tags", d)
            g = il["TagGroup0"]
            d = gen.deep_diff(g["ImageTags"], tree(image_tags(im)))
            ctx.expect(d is None, "image-tags", d)
            ctx.expect(g.get("Name", "") == (im["name"] if im["name"] else ([] if im["name"] is not None else "")), "name-tag", f"{g.get('Name')!r}")
            got, exp = apply_mapping(r), expected_md(im)
            if not im["extra"]:
                d = sorted(set(got) ^ set(exp))
                ctx.expect(not d, "mapped-keys", f"{d} got {got} expected {exp}")
            for k, v in exp.items():
                ok = k in got and (gen.close(got[k], v, 1e-9, 1e-12) if isinstance(v, float) else got[k] == v)
                ctx.expect(ok, "mapped-metadata", f"{k}: {got.get(k)!r} expected {v!r}")
            rec = Recorder()
            for f in r["post_process"]:
                f(rec)
            si = (im["fmt"] == "Spectrum image" or im["spim"]) and len(im["shape"]) > 2
            ctx.expect(rec.calls == ([("to_signal1D", c["optimize"])] if si else []) + ["squeeze"], "post-process", f"{rec.calls}")


# ------------------------------------------------------------ packed complex


@st.composite
def packed(draw):
    return dict(
        version=draw(st.sampled_from([3, 4])),
        little=draw(st.integers(0, 2)) > 0,
        dt=draw(st.sampled_from([27, 28, 5])),
        n=draw(st.integers(1, 4)),
        h=draw(st.integers(1, 7)),
        w=draw(st.integers(2, 8)),
        chunks=draw(st.sampled_from(["auto", 2, (1, -1)])),
        seed=draw(gen.seeds),
    )


def check_packed(c, ctx):
    from rsciio.digitalmicrograph import file_reader

    e = "<" if c["little"] else ">"
    rng = np.random.default_rng(c["seed"])
    if c["dt"] == 5:
        h = w = 2 * c["n"]
        # the Fourier transform of a real image: Hermitian, both corners real
        full = np.fft.fftshift(np.fft.fft2(rng.normal(size=(h, w)))).astype("c8")
        raw = pack_old(full)
        tt, size = 6, h * w
    else:
        h, w = c["h"], c["w"]
        half = rng.normal(size=(h, w // 2 + 1)) + 1j * rng.normal(size=(h, w // 2 + 1))
        half = half.astype("c8" if c["dt"] == 27 else "c16")
        raw = half.view("f4" if c["dt"] == 27 else "f8").ravel()
        tt, size = (6 if c["dt"] == 27 else 7), raw.size
    im = dict(cal=[dict(Origin=1.0, Scale=2.0, Units="1/nm")] * 2)
    dim = [("", ("group", [("Origin", num(1.0)), ("Scale", num(2.0)), ("Units", ("u16", "1/nm"))]))] * 2
    data = [
        ("Calibrations", ("group", [("Brightness", ("group", [("Origin", num(0.0)), ("Scale", num(1.0)), ("Units", ("u16", ""))])), ("Dimension", ("group", dim))])),
        ("Data", ("raw", [20, tt, size], raw.astype(raw.dtype.newbyteorder(e)).tobytes())),
        ("DataType", ("simple", 5, c["dt"])),
        ("Dimensions", ("group", [("", ("simple", 5, s)) for s in (w, h)])),
    ]
    enc = Enc(c["version"], c["little"])
    p = ctx.path("a.dm%d" % c["version"])
    with open(p, "wb") as f:
        f.write(enc.file([("ImageList", ("group", [("", ("group", [("ImageData", ("group", data)), ("ImageTags", ("group", []))]))]))]))
    ctx.label(f"type{c['dt']}", "odd" if w % 2 else "even")
    ctx.nontrivial(h * w > 2)
    rs = [ctx.sut(file_reader, p, lazy=z, **({"chunks": c["chunks"]} if z else {}))[0] for z in (False, True)]
    for lazy, r in zip((False, True), rs):
        sigs.check_structure(ctx, r)
        ctx.expect(hasattr(r["data"], "__dask_keys__") == lazy, "lazy-type", f"{type(r['data'])}")
        ctx.expect(r["data"].shape == (h, w), "shape", f"{r['data'].shape} expected {(h, w)}")
        v = sigs.compute(r["data"])
        ctx.expect(v.shape == (h, w), "shape", f"{v.shape} expected {(h, w)}")
        ctx.expect(v.dtype == ("c16" if c["dt"] == 28 else "c8"), "dtype", f"{v.dtype}")
        if c["dt"] == 5:
            ctx.expect(np.allclose(v, full, rtol=1e-4, atol=1e-4), "old-packed", lambda: f"{v} expected {full}")
        else:
            k = w // 2 + 1
            ctx.expect(np.array_equal(v[:, :k], half[:, ::-1]), "packed-half", lambda: f"{v[:, :k]} expected {half[:, ::-1]}")
            if h == 1:
                ctx.expect(np.array_equal(v[:, k:], np.conj(half[:, 1 : w - k + 1])), "packed-other-half", lambda: f"{v[:, k:]}")


def pack_old(full):
    """The storage order of the packed complex format of the DM help: rows from
    the top, of each row the points from the centre to the right, the two
    points of the first column and of the Nyquist column sharing a complex."""
    h = full.shape[0]
    N = h // 2
    raw = np.zeros(2 * h * N, "f4")
    for i in range(h):
        row = raw[2 * N * i : 2 * N * (i + 1)]
        row[2::2] = full[i, N + 1 :].real
        row[3::2] = full[i, N + 1 :].imag
    raw[0], raw[1] = full[N, 0].real, full[0, 0].real
    raw[2 * N * N], raw[2 * N * N + 1] = full[N, N].real, full[0, N].real
    for i in range(1, N):  # first column: bottom left quarter
        raw[2 * N * i], raw[2 * N * i + 1] = full[N + i, 0].real, full[N + i, 0].imag
        raw[2 * N * (N + i)], raw[2 * N * (N + i) + 1] = full[N + i, N].real, full[N + i, N].imag
    return raw


def probe_hermitian(ctx):
    """The full Fourier transform of a real image is Hermitian about its origin,
    wherever the half stored puts the origin."""
    from rsciio.digitalmicrograph import file_reader

    h = w = 4
    full = np.fft.fft2(np.random.default_rng(0).normal(size=(h, w))).astype("c8")
    half = np.ascontiguousarray(np.fft.fftshift(full[:, : w // 2 + 1], axes=0))
    raw = half.view("f4").ravel()
    dim = [("", ("group", [("Origin", num(0.0)), ("Scale", num(1.0)), ("Units", ("u16", "1/nm"))]))] * 2
    data = [
        ("Calibrations", ("group", [("Brightness", ("group", [("Origin", num(0.0)), ("Scale", num(1.0)), ("Units", ("u16", ""))])), ("Dimension", ("group", dim))])),
        ("Data", ("raw", [20, 6, raw.size], raw.tobytes())),
        ("DataType", ("simple", 5, 27)),
        ("Dimensions", ("group", [("", ("simple", 5, s)) for s in (w, h)])),
    ]
    p = ctx.path("a.dm3")
    with open(p, "wb") as f:
        f.write(Enc(3, True).file([("ImageList", ("group", [("", ("group", [("ImageData", ("group", data)), ("ImageTags", ("group", []))]))]))]))
    v = np.asarray(ctx.sut(file_reader, p)[0]["data"])
    i, j = np.indices((h, w))
    ok = any(np.allclose(v[(y - i) % h, (x - j) % w], np.conj(v), atol=1e-4) for y in range(h) for x in range(w))
    ctx.expect(ok, "hermitian", lambda: f"{v}")


PROP = Prop(
    "C18",
    "an image of more than one pixel that is not a thumbnail",
    [
        Sub("images", cases, check, quick=700, shards=4),
        Sub("packed", packed, check_packed, quick=250),
    ],
    probes={"K-C18-1": probe_hermitian},
)

"""C50: TIFF files of microscopes have the calibration and the description of their makers."""

import struct
import warnings

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Reject, Sub

pos = st.floats(1e-12, 1e-3) | st.floats(1e-4, 1e5)
num = gen.floats(-1e6, 1e6)
word = st.text("abcdefghXYZ0123456789 -_", min_size=1, max_size=16).map(str.strip).filter(lambda s: s and not s.isdigit() and s[0].isalpha())
# texts without a meaning as a number, a boolean or a heading
name = word.map(lambda s: "mic" + s)
date = st.dates(min_value=__import__("datetime").date(1990, 1, 1), max_value=__import__("datetime").date(2060, 12, 31))
time = st.times().map(lambda t: t.replace(microsecond=0))
res = st.tuples(st.integers(1, 10**6), st.integers(1, 10**5))


def opt(s, p=3):
    return st.integers(0, p).flatmap(lambda i: st.none() if i == 0 else s)


@st.composite
def image(draw, dtypes=("u1", "u2", "<u4", "f4", "i2")):
    return (draw(st.sampled_from(dtypes)), (draw(st.integers(1, 12)), draw(st.integers(1, 12))), draw(gen.modes), draw(gen.seeds))


def ini(sections):
    return "".join(f"[{k}]\r\n" + "".join(f"{a}={b}\r\n" for a, b in v.items()) + "\r\n" for k, v in sections.items() if v is not None).encode("latin-1") + b"\0"


# ---------------------------------------------------------------- FEI
@st.composite
def fei(draw):
    def page():
        d = dict(
            kind="fei",
            image=draw(image(("u1", "u2"))),
            tag=draw(st.sampled_from([34682, 34680])),
            scan=draw(opt(st.tuples(pos, pos))),
            ir=draw(opt(st.tuples(pos, pos, st.integers(1, 4000), st.integers(1, 4000)), 1)),
            stage=draw(opt(st.tuples(num, num, num, num, num))),
            hv=draw(opt(st.one_of(pos, st.just("")))),
            wd=draw(opt(st.one_of(pos, st.just("")))),
            current=draw(opt(st.one_of(pos, st.just("")))),
            dwell=draw(opt(pos)),
            system=draw(opt(name)),
            user=draw(opt(name)),
            date=draw(opt(date)),
            time=draw(opt(time)),
            order=draw(st.permutations(range(8))),
        )
        return d

    return pages_of(draw, page)


def pages_of(draw, page):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    return dict(
        pages=[page() for _ in range(n)],
        multi=draw(st.booleans()) or n > 1,
        lazy=draw(st.booleans()),
        byteorder=draw(st.sampled_from(["<", "<", ">"])),
        opts=draw(st.sampled_from([{}, {}, {"compression": "zlib"}, {"rowsperstrip": 3}])),
    )


S = "Acquisition_instrument.SEM."
T = "Acquisition_instrument.TEM."


def fei_page(p):
    sec = {}
    want = {}
    sec["User"] = {}
    if p["date"]:
        sec["User"]["Date"] = p["date"].strftime("%m/%d/%Y")
        want["General.date"] = p["date"].isoformat()
    if p["time"]:
        sec["User"]["Time"] = p["time"].strftime("%I:%M:%S %p")
        want["General.time"] = p["time"].isoformat()
    if p["user"]:
        sec["User"]["User"] = p["user"]
        want["General.authors"] = p["user"]
    if p["system"]:
        sec["System"] = {"SystemType": p["system"], "Dnumber": 9922551}
        want[S + "microscope"] = p["system"]
    sec["Beam"] = {"Spot": 3.0}
    if p["hv"] is not None:
        sec["Beam"]["HV"] = p["hv"]
        want[S + "beam_energy"] = None if p["hv"] == "" else p["hv"] / 1e3
    if p["current"] is not None:
        sec["EBeam"] = {"Source": "FEG", "BeamCurrent": p["current"], "HFW": 9.9, "VFW": 8.8}
        want[S + "beam_current"] = None if p["current"] == "" else p["current"] * 1e9
    sec["Stage"] = {}
    if p["stage"]:
        for k, n, v in zip("XYZRT", ("x", "y", "z", "rotation", "tilt"), p["stage"]):
            sec["Stage"]["Stage" + k] = v
            want[S + "Stage." + n] = v
    if p["wd"] is not None:
        sec["Stage"]["WorkingDistance"] = p["wd"]
        want[S + "working_distance"] = None if p["wd"] == "" else p["wd"] * 1e3
    scale = None
    if p["scan"]:
        sec["Scan"] = {"PixelWidth": p["scan"][0], "PixelHeight": p["scan"][1], "HorFieldsize": 7.7}
        scale = p["scan"]
        if p["dwell"]:
            sec["Scan"]["Dwelltime"] = p["dwell"]
            want[S + "dwell_time"] = p["dwell"]
    if p["ir"]:
        h, v, rx, ry = p["ir"]
        sec["IRBeam"] = {"HFW": h, "VFW": v}
        sec["Image"] = {"ResolutionX": rx, "ResolutionY": ry, "DigitalContrast": 1}
        if scale is None:
            scale = (h / rx, v / ry)
    keys = list(sec)
    keys = [keys[i] for i in p["order"] if i < len(keys)] + keys[8:]
    b = ini({k: sec[k] for k in keys})
    axes = dict(scale=scale, units="m") if scale else dict(scale=(1.0, 1.0), units=None)
    return [(p["tag"], 2, len(b), b, True)], want, axes, {}


# ---------------------------------------------------------------- Zeiss
LENGTHS = {"m": 1.0, "mm": 1e-3, "µm": 1e-6, "nm": 1e-9}


@st.composite
def zeiss(draw):
    def q(units):
        return opt(st.tuples(st.integers(-99999, 99999).map(lambda i: i / 1000), st.sampled_from(sorted(units))))

    def page():
        return dict(
            kind="zeiss",
            image=draw(image(("u1", "u2"))),
            head=[draw(st.integers(0, 100)) for _ in range(3)] + [draw(st.floats(1e-12, 1e-3))] + draw(st.lists(num, max_size=4)),
            kv=draw(opt(pos)),
            mag=draw(opt(st.integers(1, 10**6))),
            stage={k: draw(q(["m", "mm", "µm"])) for k in "xyz"},
            tilt=draw(opt(num)),
            rot=draw(opt(num)),
            wd=draw(q(["m", "mm", "µm"])),
            dwell=draw(opt(st.tuples(st.floats(0.01, 999), st.sampled_from(["s", "ms", "µs", "ns"])))),
            iprobe=draw(opt(st.tuples(st.floats(0.01, 999), st.sampled_from(["A", "µA", "nA", "pA"])))),
            det=draw(opt(name)),
            serial=draw(opt(name)),
            user=draw(opt(name)),
            date=draw(opt(date)),
            time=draw(opt(time)),
        )

    return pages_of(draw, page)


def zeiss_page(p):
    lines = [repr(v) for v in p["head"]]
    want = {}

    def put(key, label, text, path=None, value=None):
        lines.extend([key, f"{label} = {text}" if not label.endswith(":") else f"{label}{text}"])
        if path:
            want[path] = value

    if p["kv"]:
        put("AP_ACTUALKV", "EHT", f"{p['kv']!r} kV", S + "beam_energy", p["kv"])
    if p["mag"]:
        put("AP_MAG", "Mag", f"{p['mag']} X", S + "magnification", float(p["mag"]))
    for k, v in p["stage"].items():
        if v:
            put(f"AP_STAGE_AT_{k.upper()}", f"Stage at {k.upper()}", f"{v[0]!r} {v[1]}", S + f"Stage.{k}", ("rel", v[0] * LENGTHS[v[1]] * 1e3))
    if p["tilt"] is not None:
        put("AP_STAGE_AT_T", "Stage at T", f"{p['tilt']!r} °", S + "Stage.tilt", p["tilt"])
    if p["rot"] is not None:
        put("AP_STAGE_AT_R", "Stage at R", f"{p['rot']!r} °", S + "Stage.rotation", p["rot"])
    if p["wd"]:
        put("AP_WD", "WD", f"{p['wd'][0]!r} {p['wd'][1]}", S + "working_distance", ("rel", p["wd"][0] * LENGTHS[p["wd"][1]] * 1e3))
    if p["dwell"]:
        f = {"s": 1, "ms": 1e-3, "µs": 1e-6, "ns": 1e-9}[p["dwell"][1]]
        put("DP_DWELL_TIME", "Dwell Time", f"{p['dwell'][0]!r} {p['dwell'][1]}", S + "dwell_time", ("rel", p["dwell"][0] * f))
    if p["iprobe"]:
        f = {"A": 1e9, "µA": 1e3, "nA": 1, "pA": 1e-3}[p["iprobe"][1]]
        put("AP_IPROBE", "I Probe", f"{p['iprobe'][0]!r} {p['iprobe'][1]}", S + "beam_current", ("rel", p["iprobe"][0] * f))
    if p["det"]:
        put("DP_DETECTOR_TYPE", "Detector", p["det"], S + "Detector.detector_type", p["det"])
    if p["serial"]:
        put("SV_SERIAL_NUMBER", "Serial No.", p["serial"], S + "microscope", p["serial"])
    if p["user"]:
        put("SV_USER_NAME", "User Name", p["user"], "General.authors", p["user"])
    if p["date"]:
        put("AP_DATE", "Date :", p["date"].strftime("%d %b %Y"), "General.date", p["date"].isoformat())
    if p["time"]:
        put("AP_TIME", "Time :", p["time"].strftime("%H:%M:%S"), "General.time", p["time"].isoformat())
    b = ("\r\n".join(lines) + "\r\n").encode("cp1252") + b"\0"
    scale = p["head"][3] * 1024 / p["image"][1][1]
    return [(34118, 2, len(b), b, True)], want, dict(scale=(scale, scale), units="m"), {}


# ---------------------------------------------------------------- TVIPS
f32 = st.floats(2.0**-20, 2.0**20, width=32)


@st.composite
def tvips(draw):
    def page():
        return dict(
            kind="tvips",
            image=draw(image()),
            version=draw(st.sampled_from([2, 2, 2, 1])),
            size=(draw(f32), draw(f32)),
            mode=draw(st.integers(0, 5)),
            mag=draw(f32),
            exposure=draw(f32),
            ht=draw(f32),
            camera=draw(name),
            comment=draw(st.one_of(st.just(""), name)),
            time=draw(st.integers(0, 86399)),
            stage=[draw(st.floats(-1, 1, width=32)) for _ in range(5)],
            res=(draw(res), draw(res)),
        )

    return pages_of(draw, page)


def tvips_page(p, byteorder):
    import tifffile

    h1 = np.zeros(1, np.dtype(tifffile.TIFF.TVIPS_HEADER_V1).newbyteorder(byteorder))
    h1["Version"] = p["version"]
    h1["CommentV1"] = b"old comment"
    h1["Magnification"] = 77
    b = h1.tobytes()
    if p["version"] == 1:
        a, c = p["res"]
        return [(37706, 1, len(b), b, True)], {}, dict(scale=(a[1] / a[0] * 1e-2, c[1] / c[0] * 1e-2), units="m"), {"resolution": p["res"], "resolutionunit": 3}
    h2 = np.zeros(1, np.dtype(tifffile.TIFF.TVIPS_HEADER_V2).newbyteorder(byteorder))
    h2["PixelSizeX"], h2["PixelSizeY"] = p["size"]
    h2["PhysicalPixelSizeX"] = h2["PhysicalPixelSizeY"] = 15625.0
    h2["TemMode"] = p["mode"]
    h2["TemMagnification"] = p["mag"]
    h2["PostMagnification"] = 3.0
    h2["ExposureTime"] = p["exposure"]
    h2["TemHighTension"] = p["ht"]
    h2["Time"] = p["time"]
    h2["Date"] = 132122901
    h2["TemStagePosition"] = p["stage"]
    h2["CameraType"] = np.void(p["camera"].encode("utf-16-le").ljust(160, b"\0"))
    h2["Comment"] = np.void(p["comment"].encode("utf-16-le").ljust(1024, b"\0"))
    h2["ImageName"] = np.void("image".encode("utf-16-le").ljust(160, b"\0"))
    h2["Magic"] = 0xAAAAAAAA
    b += h2.tobytes()
    x, y, z, al, be = (float(np.float32(v)) for v in p["stage"])
    want = {
        T + ("camera_length" if p["mode"] == 3 else "magnification"): p["mag"],
        T + ("magnification" if p["mode"] == 3 else "camera_length"): ABSENT,
        T + "Detector.Camera.name": p["camera"],
        T + "Detector.Camera.exposure": ("rel", p["exposure"] * 1e-3),
        T + "beam_energy": ("rel", p["ht"] * 1e-3),
        "General.notes": p["comment"] or None,
        T + "Stage.x": ("rel", x * 1e3),
        T + "Stage.y": ("rel", y * 1e3),
        T + "Stage.z": ("rel", z * 1e3),
        T + "Stage.tilt_alpha": al,
        T + "Stage.tilt_beta": be,
    }
    return [(37706, 1, len(b), b, True)], want, dict(scale=p["size"], units="nm"), {"resolution": p["res"], "resolutionunit": 3}


ABSENT = ("absent",)


# ---------------------------------------------------------------- Olympus
@st.composite
def olympus(draw):
    def page():
        return dict(
            kind="olympus",
            image=draw(image()),
            tag=33560,
            exp=draw(st.sampled_from([-9, -6, -9, -3])),
            cal=(draw(st.floats(0.01, 1000)), draw(st.floats(0.01, 1000))),
            mag=draw(st.floats(1, 1e6)),
            camera=draw(name),
            others=draw(st.integers(0, 2)),
        )

    d = pages_of(draw, page)
    d.update(pages=d["pages"][:1], byteorder="<")
    return d


SIS_MARK = b"SIS0\0\0\0\0\0\0"


def olympus_page(p):
    n = 1 + p["others"]
    head = struct.pack("<4s6xhhhhh6x32sH", b"SIS0", 5, 6, 7, 8, 109, b"SIS name", n)
    entries = b"".join(struct.pack("<hhI", 10, 1, 0) for _ in range(p["others"])) + struct.pack("<hhI", 1, 1, len(head) + 8 * n)
    body = struct.pack("<10xhdd8xd2x34s32s", p["exp"], *p["cal"], p["mag"], p["camera"].encode(), b"picture")
    b = head + entries + body.ljust(220, b"\0")
    m = 10.0 ** p["exp"]
    want = {T + "magnification": p["mag"], T + "Detector.Camera.name": p["camera"]}
    return [(p["tag"], 1, len(b), b, True)], want, dict(scale=tuple(c * m for c in p["cal"]), units="m", atol=0.6e-15), {}


def olympus_patch(path, p):
    # the offset of the block of general data is counted from the start of the file
    b = bytearray(open(path, "rb").read())
    i = b.find(SIS_MARK)
    k = i + 60 + 8 * p["others"] + 4
    (o,) = struct.unpack_from("<I", b, k)
    struct.pack_into("<I", b, k, o + i)
    open(path, "wb").write(bytes(b))


# ---------------------------------------------------------------- JEOL
@st.composite
def jeol(draw):
    def page():
        return dict(
            kind="jeol",
            image=draw(image()),
            stem=draw(st.integers(0, 3)) == 0,
            diff=draw(st.booleans()),
            sel=draw(st.integers(1, 10**6)),
            unit=draw(st.sampled_from(["mm", "mm", "cm"])),
            ht=draw(st.integers(10, 1250)) * 1000,
            current=draw(st.floats(0.1, 999)),
            tilt=(draw(gen.floats(-90, 90)), draw(gen.floats(-90, 90))),
            z=draw(gen.floats(-1e6, 1e6)),
            res=(draw(res), draw(res)),
            resunit=draw(st.sampled_from([2, 3])),
            date=draw(date),
            time=draw(st.times()),
            zone=draw(st.sampled_from(["+09:00", "-05:00", "+00:00"])),
            field=draw(st.sampled_from(["BrightField", "DarkField"])),
            instrument=draw(name),
        )

    d = pages_of(draw, page)
    d["pages"] = d["pages"][:1]
    return d


def jeol_page(p):
    text = "DIFF" if p["diff"] else "MAG"
    sel = f"{p['sel']}{p['unit']}" if p["diff"] else f"X{p['sel']}"
    t = p["time"].strftime("%H:%M:%S.%f") + "3"
    xml = f"""<?xml version="1.0"?>
<TemReporter xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">
  <FormatVersion>1.0</FormatVersion>
  <Instruments>{p['instrument']}</Instruments>
  <DateTime>{p['date'].isoformat()}T{t}{p['zone']}</DateTime>
  <Comment />
  <ElectronGun>
    <AccelerationVoltage>{p['ht']}</AccelerationVoltage>
    <BeamCurrent>{p['current']!r}</BeamCurrent>
  </ElectronGun>
  <Eos>
    <EosMode>{'eosASID' if p['stem'] else 'eosTEM'}</EosMode>
  </Eos>
  <IlluminationSystem>
    <ImageField>mode{p['field']}</ImageField>
  </IlluminationSystem>
  <ImageFormingSystem>
    <ImageFormingMode>mode{'DIFF' if p['diff'] else 'MAG1'}</ImageFormingMode>
    <ModeString>{text}</ModeString>
    <SelectorValue>{p['sel']}</SelectorValue>
    <SelectorString>{sel}</SelectorString>
    <SelectorUnitString>{p['unit'] if p['diff'] else 'X'}</SelectorUnitString>
    <ScanningImageFormingMode>modeSM_MAG</ScanningImageFormingMode>
  </ImageFormingSystem>
  <GonioStage>
    <StagePosition>
      <MX>-69877.9</MX>
      <MZ>{p['z']!r}</MZ>
      <TX>{p['tilt'][0]!r}</TX>
      <TY>{p['tilt'][1]!r}</TY>
    </StagePosition>
  </GonioStage>
</TemReporter>
""".replace("\n", "\r\n")
    b = xml.encode("ascii").ljust(4000, b"\0") + b"\0"
    mode = "STEM" if p["stem"] else "TEM"
    want = {
        "General.date": p["date"].isoformat(),
        "General.time": p["time"].strftime("%H:%M:%S.%f"),
        "General.time_zone": p["zone"],
        T + "beam_energy": ("rel", p["ht"] / 1e3),
        T + "microscope": p["instrument"],
        T + "acquisition_mode": mode,
        T + "Stage.z": ("rel", p["z"] * 1e-6),  # nm
        T + "Stage.tilt_alpha": ("rel", p["tilt"][0]),
        T + "Stage.tilt_beta": ("rel", p["tilt"][1]),
        T + ("camera_length" if p["diff"] else "magnification"): ("rel", p["sel"]),
        T + ("magnification" if p["diff"] else "camera_length"): ABSENT,
        "General.title": ", ".join([mode, p["field"], "SM_MAG" if p["stem"] else "DIFF" if p["diff"] else "MAG1", sel]),
    }
    m = {2: 0.0254, 3: 0.01}[p["resunit"]]
    px = [r[1] / r[0] * m for r in p["res"]]
    if p["stem"]:
        axes = dict(scale=(1.0, 1.0), units=None)
    elif not p["diff"]:
        axes = dict(scale=tuple(v / p["sel"] * 1e9 for v in px), units="nm", rtol=1e-9)
    else:
        v = float(p["ht"])
        lam = 12.2642597 / np.sqrt(v * (1 + 0.978475645e-6 * v)) * 0.1  # nm
        cl = p["sel"] * {"mm": 1e-3, "cm": 1e-2}[p["unit"]]
        axes = dict(scale=tuple(v / (cl * lam) for v in px), units="1 / nm", rtol=1e-5)
    dt = p["date"].strftime("%Y/%m/%d") + p["time"].strftime(" %H:%M")
    tags = [(270, 2, len(b), b, True), (271, 2, 0, "JEOL Ltd.", True), (306, 2, 0, dt, True)]
    return tags, want, axes, {"resolution": p["res"], "resolutionunit": p["resunit"]}


# ---------------------------------------------------------------- DM tags
@st.composite
def dm(draw):
    def page():
        return dict(
            kind="dm",
            image=draw(image(("u1", "u2", "f4", "<u4"))),
            units=(draw(st.sampled_from(["nm", "1/nm", "eV", "mrad", ""])), draw(st.sampled_from(["nm", "1/nm", "eV", "s"]))),
            scale=(draw(pos), draw(pos)),
            offset=(draw(num), draw(num)),
            intensity=draw(opt(st.tuples(st.sampled_from(["Counts", "e-"]), num, num), 1)),
            full=draw(st.booleans()),
        )

    d = pages_of(draw, page)
    return d


def dm_page(p):
    u, s, o = p["units"], p["scale"], p["offset"]
    tags = [(65003, 2, 0, u[0], True), (65004, 2, 0, u[1], True), (65009, 12, 1, s[0], True), (65010, 12, 1, s[1], True)]
    if p["full"]:
        tags += [(65006, 12, 1, o[0], True), (65007, 12, 1, o[1], True)]
    else:
        o = (0.0, 0.0)
    want = {}
    if p["intensity"]:
        q, off, sc = p["intensity"]
        tags += [(65022, 2, 0, q, True), (65024, 12, 1, off, True), (65025, 12, 1, sc, True)]
        want = {"Signal.quantity": q, "Signal.Noise_properties.Variance_linear_model.gain_offset": off, "Signal.Noise_properties.Variance_linear_model.gain_factor": sc}
    return tags, want, dict(scale=s, units=u, offset=o), {}


PAGES = {"fei": fei_page, "zeiss": zeiss_page, "tvips": tvips_page, "olympus": olympus_page, "jeol": jeol_page, "dm": dm_page}


def same(got, want):
    if isinstance(want, tuple) and want[0] == "rel":
        try:
            return gen.close(float(got), want[1], 2e-6, 1e-300)
        except (TypeError, ValueError):
            return False
    if isinstance(want, float):
        try:
            return gen.close(float(got), want, 1e-9)
        except (TypeError, ValueError):
            return False
    return got == want


def check_page(ctx, r, p, image, want, axes, lazy):
    sigs.check_structure(ctx, r)
    sigs.check_data(ctx, r["data"], image, lazy=lazy, dtype="value")
    ny, nx = image.shape
    (sx, sy), un, (ox, oy) = axes["scale"], axes["units"], axes.get("offset", (0.0, 0.0))
    ux, uy = un if isinstance(un, tuple) else (un, un)
    tol = (axes.get("rtol", 1e-12), axes.get("atol", 0.0))
    got = r["axes"]
    ctx.expect([a["name"] for a in got] == ["height", "width"], "axes-names", f"{got}")
    exp = [dict(size=ny, scale=sy, offset=oy, units=uy, _tol=tol), dict(size=nx, scale=sx, offset=ox, units=ux, _tol=tol)]
    sigs.check_axes(ctx, got, exp)
    md = sigs.mapped(r)
    for k, v in want.items():
        g = sigs.get(md, k, ABSENT)
        if v is None:
            ctx.expect(g in (None, ABSENT), "description", f"{k}: {g!r}, not given in the file")
        else:
            ctx.expect(same(g, v), "description", f"{k}: {g!r} expected {v!r}")


def write(path, case):
    import tifffile

    built = []
    with tifffile.TiffWriter(path, byteorder=case["byteorder"]) as tw:
        for p in case["pages"]:
            im = gen.make_array(p["image"])
            f = PAGES[p["kind"]]
            tags, want, axes, kw = f(p, case["byteorder"]) if p["kind"] == "tvips" else f(p)
            tw.write(im, photometric="minisblack", metadata=None, software=False, extratags=tags, **kw, **case["opts"])
            built.append((p, im, want, axes))
    return built


def check(case, ctx):
    from rsciio.tiff import file_reader

    path = ctx.path("image.tif")
    try:
        built = write(path, case)
    except (ValueError, struct.error) as e:
        raise Reject(str(e))
    p = case["pages"][0]
    if p["kind"] == "olympus":
        olympus_patch(path, p)
    ctx.label(p["kind"], f"{len(built)} pages")
    lazy = case["lazy"]
    kw = {"multipage_as_list": True} if case["multi"] else {}
    rs = ctx.sut(file_reader, path, lazy=lazy, **kw)
    ctx.expect(len(rs) == len(built), "number of signals", f"{len(rs)} for {len(built)} pages")
    for r, (p, im, want, axes) in zip(rs, built):
        check_page(ctx, r, p, im, want, axes, lazy)
    ny, nx = built[0][1].shape
    if ny > 1 and nx > 1 and ny != nx:
        ctx.nontrivial()


# ---------------------------------------------------------------- resolution tags
@st.composite
def forced(draw):
    return dict(inner=draw(st.one_of(fei(), tvips(), zeiss(), jeol())), res=(draw(res), draw(res)), unit=draw(st.sampled_from([1, 2, 3])))


def check_forced(case, ctx):
    """The resolution tags have priority over those of the maker on demand."""
    import tifffile

    from rsciio.tiff import file_reader

    c = case["inner"]
    p = c["pages"][0]
    im = gen.make_array(p["image"])
    f = PAGES[p["kind"]]
    tags, want, axes, kw = f(p, c["byteorder"]) if p["kind"] == "tvips" else f(p)
    path = ctx.path("image.tif")
    if p["kind"] == "jeol":
        tags = [t for t in tags if t[0] not in (270, 271)]
    tifffile.imwrite(path, im, photometric="minisblack", metadata=None, software=False, extratags=tags, byteorder=c["byteorder"], resolution=case["res"], resolutionunit=case["unit"])
    (r,) = ctx.sut(file_reader, path, force_read_resolution=True, lazy=c["lazy"])
    sigs.check_structure(ctx, r)
    k = {1: None, 2: 25400.0, 3: 10000.0}[case["unit"]]
    sx, sy = ((1.0, 1.0) if k is None else tuple(b / a * k for a, b in case["res"]))
    u = None if k is None else "µm"
    sigs.check_axes(ctx, r["axes"], [dict(size=im.shape[0], scale=sy, offset=0.0, units=u), dict(size=im.shape[1], scale=sx, offset=0.0, units=u)], rtol=1e-9)
    ctx.label(p["kind"], str(case["unit"]))
    if k and sx != sy:
        ctx.nontrivial()


# ---------------------------------------------------------------- Hamamatsu
@st.composite
def hamamatsu(draw):
    return dict(
        dtype=draw(st.sampled_from(["u2", "<u4", "u1"])),
        shape=(draw(st.integers(6, 24)), draw(st.integers(6, 24))),
        seed=draw(gen.seeds),
        mode=draw(gen.modes),
        x=draw(st.one_of(st.none(), st.tuples(st.floats(100, 1000), st.floats(0.01, 5)))),
        y=draw(st.one_of(st.none(), st.tuples(st.floats(-100, 100), st.floats(0.1, 10), st.floats(-0.02, 0.02), st.floats(-1e-3, 1e-3)))),
        units=(draw(st.sampled_from(["nm", "µm", "eV"])), draw(st.sampled_from(["ps", "ns", "µs"]))),
        kind=draw(st.sampled_from([None, "uniform", "data", "functional"])),
        lazy=draw(st.booleans()),
        y_first=draw(st.booleans()),
        fields=draw(st.dictionaries(st.sampled_from(["CameraName", "Binning", "ScanMode"]), word, max_size=3)),
    )


def check_hamamatsu(case, ctx):
    import tifffile

    from rsciio.tiff import file_reader

    ny, nx = case["shape"]
    im = gen.make_array((case["dtype"], (ny, nx), case["mode"], case["seed"]))
    xu, yu = case["units"]
    xu, yu = (xu if xu != "µm" else "um"), (yu if yu != "µs" else "us")
    i = np.arange
    xax = i(nx, dtype=float) if case["x"] is None else case["x"][0] + case["x"][1] * i(nx)
    xax = xax.astype("<f4")
    if case["y"] is None:
        yax, yu = i(ny).astype("<f4"), ""
    else:
        a, b, c, d = case["y"]
        yax = (a + b * i(ny) + c * i(ny) ** 2 + d * i(ny) ** 3).astype("<f4")
    if case["x"] is None:
        xu = ""

    def describe(ax, ay):
        fx = "Other" if case["x"] is None else f"#{ax:07d},{nx:04d}"
        fy = "Focus mode" if case["y"] is None else f"#{ay:07d},{ny:04d}"
        cam = "".join(f',{k}="{v}"' for k, v in case["fields"].items())
        return (
            f'[Application],Date="09/02/2022",Software="HPD-TA"\r\n[Camera]{cam},Type=34\r\n'
            f'[Scaling],ScalingXType=2,ScalingXScale=1,ScalingXUnit="{xu}",ScalingXScalingFile="{fx}",'
            f'ScalingYType=2,ScalingYScale=2,ScalingYUnit="{yu}",ScalingYScalingFile="{fy}"\r\n[Comment],UserComment=""'
        )

    path = ctx.path("streak.tif")

    def put(desc):
        tifffile.imwrite(
            path, im, photometric="minisblack", metadata=None, byteorder="<", description=desc, software="HPD-TA 9.5 pf4",
            extratags=[(315, 2, 0, "Copyright Hamamatsu GmbH, 2018", True)],
        )

    put(describe(0, 0))
    import os

    n = os.path.getsize(path)
    ax, ay = (n + 4 * ny, n) if case["y_first"] else (n, n + 4 * nx)
    put(describe(ax, ay))
    if os.path.getsize(path) != n:
        raise Reject("size")
    with open(path, "ab") as f:
        for a in [yax, xax] if case["y_first"] else [xax, yax]:
            f.write(a.tobytes())
    kw = {} if case["kind"] is None else {"hamamatsu_streak_axis_type": case["kind"]}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        (r,) = ctx.sut(file_reader, path, lazy=case["lazy"], **kw)
    told = any(issubclass(v.category, UserWarning) and "linear" in str(v.message) for v in w)
    ctx.expect(told == (case["kind"] is None), "warning", f"{case['kind']}: {[str(v.message) for v in w]}")
    ctx.label(str(case["kind"]), "x" if case["x"] else "no x", "y" if case["y"] else "no y")
    sigs.check_structure(ctx, r)
    sigs.check_data(ctx, r["data"], im, lazy=case["lazy"], dtype="value")
    gy, gx = r["axes"]
    ctx.expect(gy.get("navigate") is False and gx.get("navigate") is False, "axis-navigate", f"{r['axes']}")
    ctx.expect((gy["name"], gx["name"]) == ("height", "width"), "axes-names", f"{r['axes']}")
    ctx.expect((gy["units"], gx["units"]) == (yu, xu), "axis-units", f"{gy['units']!r} {gx['units']!r} expected {yu!r} {xu!r}")
    span = float(np.abs(xax).max())
    ctx.expect(
        np.allclose(gx["offset"] + gx["scale"] * i(nx), xax, rtol=0, atol=1e-5 * span + 1e-6), "width axis", f"{gx} for {gen.short(xax, 200)}"
    )
    Y = yax.astype(float)
    tol = 1e-5 * float(np.abs(Y).max()) + 1e-6
    if case["kind"] in (None, "uniform"):
        # the straight line with the smallest sum of squares
        t = i(ny) - (ny - 1) / 2
        sl = float((t * (Y - Y.mean())).sum() / (t * t).sum())
        line = Y.mean() + sl * t
        ctx.expect(np.allclose(gy["offset"] + gy["scale"] * i(ny), line, rtol=0, atol=tol), "height axis", f"{gy} for {gen.short(yax, 200)}")
        ctx.expect(gy["size"] == ny, "height axis", f"{gy}")
    elif case["kind"] == "data":
        ctx.expect(np.array_equal(np.asarray(gy["axis"]), yax), "height axis", f"{gy} for {gen.short(yax, 200)}")
    else:
        x = gy["x"]["offset"] + gy["x"]["scale"] * i(gy["x"]["size"])
        v = eval(gy["expression"], {"x": x, **{k: gy[k] for k in "abcd"}})
        ctx.expect(np.allclose(v, Y, rtol=0, atol=tol), "height axis", f"{gy} for {gen.short(yax, 200)}")
    sc = sigs.get(r["original_metadata"], "ImageDescriptionParsed.Scaling", {})
    ctx.expect(np.array_equal(sc.get("ScalingXaxis"), xax) and np.array_equal(sc.get("ScalingYaxis"), yax), "values of the axes", f"{gen.short(sc, 300)}")
    cam = sigs.get(r["original_metadata"], "ImageDescriptionParsed.Camera", {})
    for k, v in case["fields"].items():
        ctx.expect(cam.get(k) == v, "description", f"{k}: {cam.get(k)!r} expected {v!r}")
    if case["y"] and case["x"]:
        ctx.nontrivial()


def probe_time(ctx):
    """K-C50-1: the time of TVIPS images isn't in the format of the metadata."""
    from rsciio.tiff import file_reader

    case = dict(pages=[dict(kind="tvips", image=("u1", (2, 3), "random", 0), version=2, size=(1.0, 1.0), mode=1, mag=1.0, exposure=1.0, ht=1.0, camera="c", comment="", time=32477, stage=[0.0] * 5, res=((1, 1), (1, 1)))], byteorder="<", opts={})
    path = ctx.path("t.tif")
    write(path, case)
    (r,) = file_reader(path)
    t = sigs.get(sigs.mapped(r), "General.time")
    ctx.expect(t == "09:01:17", "time", f"{t!r} for 32477 s after midnight")


RULE = "the image has two different sides larger than one (resolution: a unit and different x and y; streak: both axes stored in the file)"
PROP = Prop(
    "C50",
    RULE,
    [
        Sub("fei", fei, check, quick=150),
        Sub("zeiss", zeiss, check, quick=150),
        Sub("tvips", tvips, check, quick=120),
        Sub("olympus", olympus, check, quick=80),
        Sub("jeol", jeol, check, quick=120),
        Sub("dm", dm, check, quick=120),
        Sub("resolution", forced, check_forced, quick=100),
        Sub("hamamatsu", hamamatsu, check_hamamatsu, quick=120),
    ],
    probes={"K-C50-1": probe_time},
)

"""C22: TIA series (ser) and their descriptions (emi) by an independent encoder."""

import datetime
import os
import struct
from xml.sax.saxutils import escape

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

TYPES = {1: "<u1", 2: "<u2", 3: "<u4", 4: "<i1", 5: "<i2", 6: "<i4", 7: "<f4", 8: "<f8", 9: "<c8", 10: "<c16"}
f8 = st.floats(min_value=1e-12, max_value=1e6, allow_subnormal=False)
element = st.sampled_from([0, 0, 0, 1, 5])
word = st.text(alphabet="abcdefghijklmnopqrstuvwxyzABCDEFGHIJ", min_size=1, max_size=8)


@st.composite
def dims(draw, size, units=None):
    return dict(
        size=size,
        offset=draw(st.sampled_from([0.0, -6.28e-9, 1e-8, -2.5])),
        delta=draw(st.sampled_from([1.0, 1.87e-9, -2e-9, 0.25])),
        element=draw(element),
        description=draw(st.sampled_from(["Number", "Position", ""])),
        units=draw(st.sampled_from(["meters", "meters", "", "s"])) if units is None else units,
    )


@st.composite
def series(draw, name=None):
    kind = draw(st.sampled_from(["spectrum", "image"]))
    ndim = draw(st.sampled_from([1, 1, 2]))
    xy = ndim == 2 or draw(st.booleans())
    if ndim == 1:
        sizes = [draw(st.integers(1, 6))]
        first = 1
    else:
        # fast dimension first; a scan of at least two columns
        sizes = [draw(st.integers(2, 4)), draw(st.integers(1, 4))]
        first = 2
    total = int(np.prod(sizes))
    valid = draw(st.one_of(st.just(total), st.integers(min(first, total), total)))
    shape = draw(gen.shapes(1, 1, 1, 9)) if kind == "spectrum" else draw(gen.shapes(2, 2, 1, 7))
    cal = st.fixed_dictionaries(dict(offset=st.sampled_from([0.0, -100.0, 2160.0, -3.5e-8, 1e7]), delta=st.sampled_from([1.0, 5.0, 1.9e-10, 2e7]), element=element))
    return dict(
        kind=kind,
        sizes=sizes,
        total=total,
        valid=valid,
        xy=xy,
        dims=[draw(dims(s, "meters" if ndim == 2 and draw(st.integers(0, 3)) else None)) for s in sizes],
        shape=shape,
        dtype=draw(st.sampled_from(sorted(TYPES))),
        seed=draw(gen.seeds),
        cals=[draw(cal) for _ in shape],
        version=draw(st.sampled_from([0x210, 0x220])),
        times=draw(st.integers(0, 2**31)),
        gap=draw(st.sampled_from([0, 0, 3])),
        backwards=draw(st.booleans()),
        start=draw(st.tuples(st.sampled_from([0.0, -3e-8]), st.sampled_from([0.0, 1e-7]))),
    )


def elements(s):
    return gen.make_array((TYPES[s["dtype"]], (s["valid"], *s["shape"]), "random", s["seed"]))


def positions(s):
    """x and y of each element; x varies fastest."""
    n = s["sizes"][0]
    i = np.arange(s["valid"])
    return s["start"][0] + (i % n) * 1e-9, s["start"][1] + (i // n) * 2e-9


def encode(s):
    big = s["version"] > 528
    off = "<Q" if big else "<I"
    head = b""
    for d in s["dims"]:
        a, b = d["description"].encode(), d["units"].encode()
        head += struct.pack("<IddI", d["size"], d["offset"], d["delta"], d["element"])
        head += struct.pack("<I", len(a)) + a + struct.pack("<I", len(b)) + b
    start = (34 if big else 30) + len(head)
    px, py = positions(s)
    rec = []
    for i, a in enumerate(elements(s)):
        if s["kind"] == "spectrum":
            c = s["cals"][0]
            b = struct.pack("<ddIHI", c["offset"], c["delta"], c["element"], s["dtype"], s["shape"][0])
        else:
            # the rows are stored from the bottom of the image
            cy, cx = s["cals"]
            b = struct.pack("<ddI", cx["offset"], cx["delta"], cx["element"])
            b += struct.pack("<ddI", cy["offset"], cy["delta"], cy["element"])
            b += struct.pack("<HII", s["dtype"], s["shape"][1], s["shape"][0])
        tag = struct.pack("<HHI", 0x4142 if s["xy"] else 0x4152, 0, s["times"])
        if s["xy"]:
            tag += struct.pack("<dd", px[i], py[i])
        rec.append((b + a.tobytes(), tag))
    # records, anywhere between the header and the array of offsets
    body = b""
    data_off = [0] * s["total"]
    tag_off = [0] * s["total"]
    order = range(len(rec))
    for i in reversed(order) if s["backwards"] else order:
        body += b"\xee" * s["gap"]
        data_off[i] = start + len(body)
        body += rec[i][0]
        tag_off[i] = start + len(body)
        body += rec[i][1]
    array = start + len(body)
    out = struct.pack("<HHHIIII", 0x4949, 0x0197, s["version"], 0x4120 if s["kind"] == "spectrum" else 0x4122, 0x4142 if s["xy"] else 0x4152, s["total"], s["valid"])
    out += struct.pack(off, array) + struct.pack("<I", len(s["dims"])) + head + body
    return out + b"".join(struct.pack(off, v) for v in data_off + tag_off)


def si(ax):
    if ax["units"] == "meters":
        ax.update(units="nm", scale=ax["scale"] * 1e9, offset=ax["offset"] * 1e9)
    elif ax["units"] == "1/meters":
        ax.update(units="1 / nm", scale=ax["scale"] * 1e-9, offset=ax["offset"] * 1e-9)
    return ax


def expected(s, units="meters", only_valid=True):
    data = elements(s)
    nav = []
    names = ["x"] if len(s["sizes"]) == 1 else ["x", "y"]
    for d, n in zip(s["dims"], names):
        nav.append(dict(name=n if d["units"] == "meters" else None, units=d["units"] or None, scale=d["delta"], offset=d["offset"] - d["element"] * d["delta"], size=d["size"], navigate=True))
    two = len(nav) == 2
    if two and (nav[0]["name"] is None or nav[1]["name"] is None):
        # the name of the only dimension of space is not specified
        for a in nav:
            a.pop("name")
    if not two and s["valid"] < s["total"] and only_valid:
        nav[0]["size"] = s["valid"]
        if s["valid"] == 1:
            nav = []
    n = int(np.prod([a["size"] for a in nav]))
    if n > len(data):
        fill = np.zeros((n - len(data), *data.shape[1:]), data.dtype)
        if data.dtype.kind == "f":
            fill[:] = np.nan
        data = np.concatenate([data, fill])
    nav = nav[::-1]
    if s["kind"] == "image":
        nav = [a for a in nav if a["size"] > 1]
        data = data[:, ::-1]
        sig = [dict(name=k, units=units) for k in "yx"]
    else:
        sig = [dict(name="Energy", units="eV")]
    for a, c, m in zip(sig, s["cals"], s["shape"]):
        a.update(scale=c["delta"], offset=c["offset"] - c["element"] * c["delta"], size=m, navigate=False)
    axes = [si(a) for a in nav + sig]
    return data.reshape([a["size"] for a in axes]), axes


def check_axes(ctx, got, exp):
    ctx.expect(len(got) == len(exp), "axes", f"{len(got)} axes instead of {len(exp)}")
    for i, (g, e) in enumerate(zip(got, exp)):
        for k, v in e.items():
            if k in ("scale", "offset"):
                tol = 1e-9 * max(abs(e["offset"]), abs(e["scale"]) * 10)
                ctx.expect(abs(g[k] - v) <= tol, f"axes-{k}", f"axis {i}: {k} {g[k]!r}, expected {v!r}")
            else:
                ctx.expect(g[k] == v, f"axes-{k}", f"axis {i}: {k} {g[k]!r}, expected {v!r}")


def labels(ctx, s):
    ctx.label(s["kind"], TYPES[s["dtype"]], f"dims{len(s['sizes'])}", "xy" if s["xy"] else "time", hex(s["version"]))
    if s["valid"] < s["total"]:
        ctx.label("incomplete")


def check_one(ctx, s, r, units, lazy, only_valid):
    data, axes = expected(s, units, only_valid)
    sigs.check_structure(ctx, r)
    sigs.check_data(ctx, r["data"], data, lazy=lazy)
    check_axes(ctx, r["axes"], axes)
    h = r["original_metadata"]["ser_header_parameters"]
    ctx.expect(int(h["TotalNumberElements"]) == s["total"] and int(h["ValidNumberElements"]) == s["valid"], "original-metadata", f"numbers of elements {h['TotalNumberElements']} {h['ValidNumberElements']}")
    if s["xy"]:
        px, py = positions(s)
        ctx.expect(np.array_equal(np.ravel(h["PositionX"]), px) and np.array_equal(np.ravel(h["PositionY"]), py), "original-metadata", "positions of the elements")


@st.composite
def ser_cases(draw):
    return dict(s=draw(series()), only_valid=draw(st.booleans()), name=draw(st.sampled_from(["a_1.ser", "a.SER", "b c_3.ser"])))


def ser_check(c, ctx):
    from rsciio.tia import file_reader

    s = c["s"]
    labels(ctx, s)
    ctx.nontrivial(s["total"] > 1 or s["kind"] == "image")
    path = ctx.path(c["name"])
    with open(path, "wb") as f:
        f.write(encode(s))
    for lazy in (False, True):
        r = ctx.sut(file_reader, path, lazy=lazy, only_valid_data=c["only_valid"])
        ctx.expect(len(r) == 1, "count", f"{len(r)} signals")
        check_one(ctx, s, r[0], "meters", lazy, c["only_valid"])
        ctx.expect(r[0]["metadata"]["General"]["original_filename"] == c["name"], "metadata", "original_filename")


ITEMS = [("High tension", "kV", 80.0), ("Magnification", "x", 10000.0), ("Camera length", "m", 0.3), ("Stage A", "deg", -1.5), ("Stage B", "deg", 2.0), ("Stage X", "um", -25.5), ("Stage Y", "um", 12.25), ("Stage Z", "um", 4.0)]
PATHS = {
    "High tension": ("Acquisition_instrument.TEM.beam_energy", 1),
    "Magnification": ("Acquisition_instrument.TEM.magnification", 1),
    "Camera length": ("Acquisition_instrument.TEM.camera_length", 1e3),
    "Stage A": ("Acquisition_instrument.TEM.Stage.tilt_alpha", 1),
    "Stage B": ("Acquisition_instrument.TEM.Stage.tilt_beta", 1),
    "Stage X": ("Acquisition_instrument.TEM.Stage.x", 1e-3),
    "Stage Y": ("Acquisition_instrument.TEM.Stage.y", 1e-3),
    "Stage Z": ("Acquisition_instrument.TEM.Stage.z", 1e-3),
}


@st.composite
def objects(draw):
    return dict(
        when=draw(st.one_of(st.none(), st.datetimes(min_value=datetime.datetime(1995, 1, 1), max_value=datetime.datetime(2050, 1, 1)).map(lambda d: d.replace(microsecond=0)))),
        mode=draw(st.sampled_from([None, "TEM uP SA Zoom Image", "TEM uP SA Zoom Diffraction", "STEM nP SA Zoom Diffraction", "STEM nP SA Zoom Image"])),
        camera=draw(st.sampled_from([None, "BM-UltraScan"])),
        microscope=draw(st.sampled_from(["Microscope Titan 300 kV D3094 SuperTwin", "Tecnai <&> µ"])),
        user=draw(word),
        items={k: draw(st.one_of(st.just(v), st.floats(-1e6, 1e6))) for k, u, v in ITEMS if draw(st.integers(0, 5))},
        odd=draw(st.sampled_from([None, None, "text", "none"])),
        info={str(i): draw(st.sampled_from([0.0, 1.0, -8.5e-06, 1024.0])) for i in draw(st.lists(st.integers(1, 99), unique=True, max_size=3))},
    )


def xml(o):
    def data(label, value, unit):
        return f"<Data><Label>{escape(label)}</Label><Value>{escape(value)}</Value><Unit>{escape(unit)}</Unit></Data>"

    exp = data("Microscope", o["microscope"], "") + data("User", o["user"], "")
    if o["mode"]:
        exp += data("Mode", o["mode"], "")
    for k, u, _ in ITEMS:
        if k in o["items"]:
            exp += data(k, repr(o["items"][k]), u)
    if o["odd"]:
        exp += data("Filter", "out" if o["odd"] == "text" else "", "eV")
    out = f"<ObjectInfo><Uuid>392a0b2b-5edb-4c51-843c-57916c4059a0</Uuid><ExperimentalDescription><Root>{exp}</Root></ExperimentalDescription>"
    if o["info"]:
        t = "<Root>" + "".join(f"<Data><Index>{k}</Index><Value>{v!r}</Value></Data>" for k, v in o["info"].items()) + "</Root>\r\n"
        out += f"<TrueImageHeaderInfo>{escape(t)}</TrueImageHeaderInfo>"
    if o["when"]:
        out += f"<AcquireDate>{o['when'].strftime('%a %b %d %H:%M:%S %Y')}</AcquireDate>"
    out += "<AcquireInfo><DwellTimePath>0.000048</DwellTimePath>"
    if o["camera"]:
        out += f"<CameraNamePath>{o['camera']}</CameraNamePath>"
    return (out + "</AcquireInfo><Manufacturer>FEI (ISAS)</Manufacturer></ObjectInfo>").encode()


@st.composite
def emi_cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    numbers = draw(st.lists(st.sampled_from([1, 2, 3, 4, 9, 10, 11, 12]), min_size=n, max_size=n, unique=True))
    return dict(
        sers={k: draw(series()) for k in numbers},
        objects=[draw(objects()) for _ in range(draw(st.integers(0, 4)))],
        junk=draw(st.sampled_from([b"JL\0\0", b"\0\xff<Object", b"JL\x00\x90</ObjectInfo>"])),
        name=draw(st.sampled_from(["a", "a b", "run [1]", "a.b"])),
        other=draw(st.booleans()),
        empty=draw(st.booleans()),
        only_valid=draw(st.booleans()),
        lazy=draw(st.booleans()),
    )


def units_of(s, o):
    d = s["dims"][0]
    if not o["mode"]:
        return "meters"
    if o["mode"].startswith("STEM"):
        # diffraction patterns of a camera, or of a scan with calibrated positions
        return "1/meters" if o["camera"] or (d["size"] > 1 and d["units"]) else "meters"
    return "1/meters" if "Diffraction" in o["mode"] else "meters"


def emi_check(c, ctx):
    from rsciio.tia import file_reader

    path = ctx.path(c["name"] + ".emi")
    stem = path[:-4]
    with open(path, "wb") as f:
        f.write(c["junk"])
        for i, o in enumerate(c["objects"]):
            f.write(b"\x10\0\xfe" * i + xml(o))
        f.write(b"\0end")
    for k, s in c["sers"].items():
        labels(ctx, s)
        with open(f"{stem}_{k}.ser", "wb") as f:
            f.write(encode(s))
    if c["other"]:
        # files of another description
        with open(f"{stem}2_1.ser", "wb") as f:
            f.write(encode(dict(s)))
        with open(f"{stem}_x_1.ser", "wb") as f:
            f.write(encode(dict(s)))
    if c["empty"] and 5 not in c["sers"]:
        # single spectra without data are skipped
        b = bytearray(encode(s))
        b[18:22] = struct.pack("<I", 0)
        with open(f"{stem}_5.ser", "wb") as f:
            f.write(b)
    ctx.label(f"sers{len(c['sers'])}", f"objects{len(c['objects'])}")
    ctx.nontrivial(len(c["sers"]) > 1 or len(c["objects"]) > 1)
    res = ctx.sut(file_reader, path, lazy=c["lazy"], only_valid_data=c["only_valid"])
    names = [r["metadata"]["General"]["original_filename"] for r in res]
    ctx.expect(names == [f"{c['name']}_{k}.ser" for k in sorted(c["sers"])], "files", f"files read: {names} for {sorted(c['sers'])}")
    for k, r in zip(sorted(c["sers"]), res):
        s = c["sers"][k]
        o = c["objects"][k - 1] if k <= len(c["objects"]) else None
        check_one(ctx, s, r, units_of(s, o) if o else "meters", c["lazy"], c["only_valid"])
        g = r["metadata"]["General"]
        if o is None:
            ctx.expect("date" not in g and "ObjectInfo" not in r["original_metadata"], "metadata", "description of another series")
            continue
        exp = (o["when"].date().isoformat(), o["when"].time().isoformat()) if o["when"] else (None, None)
        ctx.expect((g.get("date"), g.get("time")) == exp, "metadata", f"date and time {g.get('date')} {g.get('time')}, expected {exp}")
        m = sigs.mapped(r)
        for label, v in o["items"].items():
            p, factor = PATHS[label]
            got = sigs.get(m, p)
            ctx.expect(got is not None and abs(got - v * factor) <= 1e-9 * abs(v * factor), "metadata", f"{p}: {got!r}, expected {v * factor!r}")
        for p, v in {
            "Acquisition_instrument.TEM.microscope": o["microscope"].replace("Microscope ", ""),
            "Acquisition_instrument.TEM.acquisition_mode": None if not o["mode"] else "STEM" if "STEM" in o["mode"] else "TEM",
            "Acquisition_instrument.TEM.Detector.Camera.Name": o["camera"],
            "General.authors": o["user"],
        }.items():
            ctx.expect(sigs.get(m, p) == v, "metadata", f"{p}: {sigs.get(m, p)!r}, expected {v!r}")
        info = sigs.get(r["original_metadata"], "ObjectInfo.TrueImageHeaderInfo") or {}
        ctx.expect(dict(info) == o["info"], "original-metadata", f"TrueImageHeaderInfo {info}, expected {o['info']}")


def probe_no_dimensions(ctx):
    """The dimensions of the series are not in the header, the positions are
    those of a scan over a grid."""
    from rsciio.tia import file_reader

    dim = dict(offset=0.0, delta=1e-9, element=0, description="Position", units="meters")
    s = dict(
        kind="spectrum", sizes=[3, 2], total=6, valid=6, xy=True, dims=[dict(dim, size=3), dict(dim, size=2, delta=2e-9)], shape=(4,), dtype=3, seed=1,
        cals=[dict(offset=0.0, delta=1.0, element=0)], version=0x210, times=1, gap=0, backwards=False, start=(0.0, 0.0),
    )
    data, axes = expected(s)
    b = encode(s | {"dims": []})
    with open(ctx.path("a_1.ser"), "wb") as f:
        f.write(b)
    r = ctx.sut(file_reader, ctx.path("a_1.ser"))[0]
    ctx.expect(np.array_equal(r["data"], data), "data", f"{r['data'].shape}")


PROP = Prop(
    "C22",
    "several elements, an image, several series or several descriptions",
    [Sub("ser", ser_cases, ser_check, quick=500, shards=3), Sub("emi", emi_cases, emi_check, quick=300, shards=3)],
    assumptions=["two-dimensional scans have the fast dimension first and at least two columns", "every series has at least one dimension in its header (K-C22-1)"],
    probes={"K-C22-1": probe_no_dimensions},
)

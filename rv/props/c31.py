"""C31: Phenom element identification (ELID) projects."""

import bz2
import io
import math
import struct

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

f8 = gen.floats(-1e6, 1e6)
pos = st.floats(1e-9, 1e6)
label = gen.text(max_size=10)
count = st.one_of(st.integers(0, 300), st.sampled_from([0, 1, 127, 128, 16383, 16384, 2**21 - 1, 2**21, 2**28 - 1, 2**28, 2**31, 2**32 - 1]), st.integers(0, 2**32 - 1))
SYMBOLS = (
    "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu "
    "Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og"
).split()
z = st.integers(1, 118)
KINDS = ["msa", "spot", "line", "map", "difference", "region", "constructive"]
UNITS = {"m": 1.0, "mm": 1e-3, "um": 1e-6, "nm": 1e-9, "pm": 1e-12}


@st.composite
def description(draw):
    return dict(
        w=(draw(st.floats(0.01, 999)), draw(st.sampled_from(["um", "nm", "nm", "mm", "pm"]))),
        h=(draw(st.floats(0.01, 999)), draw(st.sampled_from(["um", "nm", "nm", "mm", "pm"]))),
        time=draw(st.datetimes().map(lambda t: t.replace(microsecond=0).isoformat())),
        sample=(draw(gen.floats(-0.1, 0.1)), draw(gen.floats(-0.1, 0.1))),
        wd=(draw(st.floats(1, 40)), draw(st.sampled_from(["mm", "um", "m"]))),
        kv=draw(st.floats(1, 30)),
        spot=draw(st.floats(1, 8)),
        scale=draw(st.sampled_from([1.0, 0.5, 0.25, 0.731])),
        iid=draw(st.text("ABC0123-", min_size=1, max_size=8)),
        extra=draw(st.dictionaries(st.sampled_from(["integrations", "appliedGamma", "currentUser"]), st.one_of(st.none(), st.text("abc019. ", min_size=1, max_size=6).filter(str.strip)), max_size=3)),
    )


@st.composite
def picture(draw, calibrated):
    rgb = not calibrated and draw(st.booleans())
    shape = (draw(st.integers(1, 8)), draw(st.integers(1, 8)))
    return dict(
        data=("u1" if rgb else draw(st.sampled_from(["u1", "u2"])), shape + ((draw(st.sampled_from([3, 4])),) if rgb else ()), draw(gen.modes), draw(gen.seeds)),
        om=draw(description()) if calibrated else None,
    )


@st.composite
def eds(draw):
    return dict(
        values=draw(st.lists(f8, min_size=8, max_size=8)),
        iid=draw(gen.text(max_size=8)),
        more=draw(st.lists(f8, min_size=5, max_size=5)),
        cc=draw(f8),
        det=draw(st.integers(0, 5)),
        corr=draw(st.integers(0, 3)),
    )


@st.composite
def analysis(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    nb = draw(st.integers(1, 6))
    d = dict(
        kind=kind,
        cutout=draw(st.one_of(st.none(), st.none(), picture(False))),
        offset=draw(gen.floats(-500, 500)),
        dispersion=draw(st.floats(0.1, 50)),
        spectrum=draw(st.lists(count, min_size=1, max_size=8)),
        eds=draw(eds()),
        included=draw(st.lists(z, max_size=3)),
        excluded=draw(st.lists(z, max_size=3)),
        bins=draw(st.lists(st.integers(-(2**31), 2**31 - 1), max_size=3)),
        oxides=draw(st.lists(st.tuples(z, st.integers(1, 5), st.integers(1, 9)), max_size=3)),
        auto=draw(st.booleans()),
        nr=draw(st.integers(-3, 10**6)),
        families=draw(st.lists(st.tuples(z, st.integers(1, 6)), max_size=3)),
        drift=draw(st.integers(0, 3)),
        ignored=draw(st.lists(z, max_size=3)),
        xy=draw(st.lists(f8, min_size=4, max_size=4)),
        ab=(draw(st.integers(0, 2**32 - 1)), draw(st.integers(0, 2**32 - 1))),
    )
    if kind in ("line", "map"):
        shape = (draw(st.integers(1, 5)),) if kind == "line" else (draw(st.integers(1, 4)), draw(st.integers(1, 4)))
        n = int(np.prod(shape))
        d.update(
            shape=shape,
            nb=nb,
            counts=draw(st.lists(count, min_size=n * nb, max_size=n * nb)),
            eds2=draw(eds()),
            real=draw(st.one_of(f8, st.lists(f8, min_size=n, max_size=n))),
            live=draw(st.one_of(f8, st.lists(f8, min_size=n, max_size=n))),
            high=draw(st.booleans()),
            colors=draw(st.lists(f8, max_size=3)),
        )
    if kind == "constructive":
        d.update(text=draw(label), sources=draw(st.lists(st.tuples(st.integers(0, 99), f8), max_size=3)))
    return d


@st.composite
def cases(draw):
    images = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3]))):
        cal = draw(st.integers(0, 3)) > 0
        images.append(dict(picture=None if not cal and draw(st.integers(0, 3)) == 0 else draw(picture(cal)), label=draw(label), analyses=draw(st.lists(analysis(KINDS[:6] if cal else ["msa"]), max_size=3))))
    if images and images[0]["picture"] and draw(st.integers(0, 19)) == 0:
        # more than the reader takes from the file at once
        p = images[0]["picture"]
        p["data"] = ("u2", (draw(st.integers(800, 1000)), draw(st.integers(700, 1500))), "random", p["data"][3])
    return dict(
        version=draw(st.integers(0, 4)),
        images=images,
        project=draw(st.lists(analysis(["msa"]), max_size=1)),
        constructive=draw(st.lists(analysis(["constructive"]), max_size=1)),
        level=draw(st.sampled_from([1, 9])),
    )


# ---------------------------------------------------------------- writing
def u4(n):
    return struct.pack("<I", n)


def d8(*v):
    return struct.pack(f"<{len(v)}d", *v)


def string(s):
    b = s.encode("utf-8")
    return u4(len(b)) + b


def var(n):
    out = bytearray()
    while True:
        n, b = n >> 7, n & 127
        out.append(b | (128 if n else 0))
        if not n:
            return bytes(out)


def xml(o):
    from xml.sax.saxutils import escape

    def q(n, v):
        return f'<{n} unit="{v[1]}">{v[0]!r}</{n}>'

    return (
        '<?xml version="1.0" encoding="UTF-8"?>\n<FeiImage xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">\n  <databarLabel/>\n'
        + q("pixelWidth", o["w"]) + q("pixelHeight", o["h"]) + f"<time>{o['time']}</time>"
        + "".join(f"<{k}/>" if v is None else f"<{k}>{escape(v)}</{k}>" for k, v in o["extra"].items())
        + f"<samplePosition><x>{o['sample'][0]!r}</x><y>{o['sample'][1]!r}</y></samplePosition>"
        + f"<acquisition><scan><dwellTime unit=\"ns\">200</dwellTime><spotSize>{o['spot']!r}</spotSize><detectors><SED><gain>5</gain></SED></detectors>"
        + f"<highVoltage unit=\"kV\">{-o['kv']!r}</highVoltage><scanScale>{o['scale']!r}</scanScale></scan></acquisition>"
        + q("workingDistance", o["wd"]) + f"<instrument><type>PhenomXL</type><uniqueID>{o['iid']}</uniqueID></instrument>\n</FeiImage>"
    ).encode()


def tiff(p):
    import tifffile

    if p is None:
        return u4(0)
    a = gen.make_array(p["data"])
    tags = []
    if p["om"]:
        b = xml(p["om"]) + b"\0"
        tags = [(34683, 2, len(b), b, True)]
    f = io.BytesIO()
    tifffile.imwrite(f, a, photometric="rgb" if a.ndim == 3 else "minisblack", metadata=None, extratags=tags, **({"extrasamples": ["unassalpha"]} if a.ndim == 3 and a.shape[2] == 4 else {}))
    b = f.getvalue()
    return u4(len(b)) + b


def put_eds(e, v):
    b = d8(*e["values"]) + string(e["iid"])
    if v > 0:
        b += d8(*e["more"])
    if v >= 3:
        b += d8(e["cc"]) + bytes([e["det"], e["corr"]])
    return b


def zs(v):
    return u4(len(v)) + bytes(v)


def put_analysis(a, v):
    b = bytes([KINDS.index(a["kind"]) + 1]) + tiff(a["cutout"])
    b += d8(a["offset"], a["dispersion"]) + u4(len(a["spectrum"])) + b"".join(map(var, a["spectrum"]))
    b += put_eds(a["eds"], v) + zs(a["included"]) + zs(a["excluded"])
    b += u4(len(a["bins"])) + struct.pack(f"<{len(a['bins'])}i", *a["bins"])
    b += u4(len(a["oxides"])) + b"".join(bytes(o) for o in a["oxides"])
    b += bytes([a["auto"]]) + struct.pack("<i", a["nr"])
    b += u4(len(a["families"])) + b"".join(bytes(o) for o in a["families"])
    if v >= 2:
        b += bytes([a["drift"]])
    if v >= 4:
        b += zs(a["ignored"])
    k = a["kind"]

    def times():
        o = b""
        for t in (a["real"], a["live"]):
            o += d8(*t) if isinstance(t, list) else d8(t)
        return o

    flags = bytes([isinstance(a["real"], list), isinstance(a["live"], list)]) if "real" in a else b""
    if k == "spot":
        b += d8(*a["xy"][:2])
    elif k == "region":
        b += d8(*a["xy"])
    elif k == "difference":
        b += u4(a["ab"][0]) + u4(a["ab"][1])
    elif k == "line":
        b += d8(*a["xy"]) + u4(a["shape"][0]) + u4(a["nb"]) + d8(a["offset"], a["dispersion"]) + put_eds(a["eds2"], v) + flags
        b += b"".join(map(var, a["counts"])) + times() + bytes([a["high"]])
    elif k == "map":
        b += d8(*a["xy"]) + u4(len(a["colors"])) + d8(*a["colors"]) + u4(a["shape"][1]) + u4(a["shape"][0]) + u4(a["nb"])
        b += d8(a["offset"], a["dispersion"]) + put_eds(a["eds2"], v) + flags + b"".join(map(var, a["counts"])) + times()
    elif k == "constructive":
        b += string(a["text"]) + u4(len(a["sources"])) + b"".join(u4(i) + d8(w) for i, w in a["sources"])
    return b


def encode(case):
    v = case["version"]
    b = b"EID2" + struct.pack("<i", v) + u4(len(case["images"]))
    for i in case["images"]:
        b += tiff(i["picture"]) + string(i["label"]) + u4(len(i["analyses"])) + b"".join(put_analysis(a, v) for a in i["analyses"])
    if v >= 1:
        for part in ("project", "constructive"):
            b += u4(len(case[part])) + b"".join(put_analysis(a, v) for a in case[part])
    return bz2.compress(b, case["level"])


# ---------------------------------------------------------------- expectations
def metre(v):
    return v[0] * UNITS[v[1]]


def want_eds(e, v, om):
    n = "high_tension detector_elevation detector_azimuth live_time real_time slow_peaking_time fast_peaking_time detector_resolution".split()
    w = dict(zip(n, e["values"]))
    w["instrument_id"] = e["iid"]
    if v == 0:
        w["detector_elevation"] = math.radians(w["detector_elevation"])
        if om:
            w.update(working_distance=metre(om["wd"]), slow_peaking_time=11.2e-6 if om["spot"] < 4.5 else 2e-6, fast_peaking_time=100e-9, detector_surface_area=25e-6)
    else:
        w.update(zip("optical_working_distance working_distance detector_surface_area detector_distance sample_tilt_angle".split(), e["more"]))
    if v >= 3:
        w.update(
            ccorrection=e["cc"],
            detector_type={0: "Empty", 1: "FastSDD_C2", 2: "FastSDD_C5", 3: "FastSDD_WLS"}.get(e["det"], "Unknown"),
            spectrum_correction={1: "linearized", 2: "raw"}.get(e["corr"], "unknown"),
        )
    else:
        w.update(ccorrection=0, detector_type="FastSDD_C2", spectrum_correction="unknown")
    return w


def sym(v):
    return [SYMBOLS[i - 1] for i in v]


def check_metadata(ctx, r, title, time, signal_type, fname):
    g = r["metadata"]["General"]
    ctx.expect(g["title"] == title, "title", f"{g['title']!r} expected {title!r}")
    ctx.expect(g["original_filename"] == fname, "title", f"{g}")
    if time:
        d, t = time.split("T")
        ctx.expect((g.get("date"), g.get("time")) == (d, t), "date", f"{g} expected {time}")
    else:
        ctx.expect("date" not in g and "time" not in g, "date", f"{g}")
    if signal_type:
        ctx.expect(sigs.get(r["metadata"], "Signal.signal_type") == signal_type, "signal type", f"{r['metadata']}")


def check_image(ctx, r, im, fname):
    p = im["picture"]
    raw = gen.make_array(p["data"])
    ctx.expect(r["data"].shape == raw.shape[:2], "image-shape", f"{r['data'].shape} for {raw.shape}")
    got = np.asarray(r["data"])
    if raw.ndim == 3:
        ctx.expect(got.dtype.names == tuple("RGBA"[: raw.shape[2]]), "image-dtype", f"{got.dtype}")
        got = np.stack([got[c] for c in got.dtype.names], axis=-1)
    ctx.expect(got.dtype == raw.dtype and np.array_equal(got, raw), "image", lambda: f"{gen.short(got, 200)} expected {gen.short(raw, 200)}")
    sigs.check_structure(ctx, r)
    o = p["om"]
    ctx.expect([a["name"] for a in r["axes"]] == ["y", "x"], "axes-names", f"{r['axes']}")
    for a, k in zip(r["axes"], ("h", "w")):
        if o is None:
            ctx.expect(a["scale"] == 1 and a["units"] == "points", "image-scale", f"{a}")
        else:
            u = UNITS.get(a["units"].replace("µ", "u"))
            ctx.expect(u is not None and gen.close(a["scale"] * u, metre(o[k]), 1e-9), "image-scale", f"{a} for pixels of {o[k]}")
        ctx.expect(a["offset"] == 0, "image-scale", f"{a}")
    check_metadata(ctx, r, im["label"], o and o["time"], None, fname)
    if o:
        om = r["original_metadata"]
        exp = {k: v for k, v in o["extra"].items()}
        exp.update({"time": o["time"], "databarLabel": None, "acquisition.scan.dwellTime": {"value": "200", "unit": "ns"}, "workingDistance": {"value": repr(o["wd"][0]), "unit": o["wd"][1]}, "instrument.type": "PhenomXL", "acquisition.scan.detectors.SED.gain": "5"})
        check_entries(ctx, om, exp)
        ctx.expect("EDS" not in om["acquisition"]["scan"]["detectors"], "settings", "the image has the settings of an analysis")
        check_mapped(ctx, r, o, None)


def check_entries(ctx, om, exp):
    miss = ("missing",)
    for k, v in exp.items():
        g = sigs.get(om, k, miss)
        if isinstance(v, np.ndarray):
            ok = isinstance(g, (list, np.ndarray)) and np.shape(g) == v.shape and np.array_equal(np.asarray(g), v)
        elif isinstance(v, float):
            ok = isinstance(g, (int, float)) and gen.close(g, v, 1e-12)
        else:
            ok = g == v
        ctx.expect(ok, "settings", f"{k}: {gen.short(g)} expected {gen.short(v)}")


def check_mapped(ctx, r, o, e, imported=False):
    md = sigs.mapped(r)
    S = "Acquisition_instrument.SEM."
    exp = {}
    if e:
        exp = {
            S + "Detector.EDS.azimuth_angle": math.degrees(e["detector_azimuth"]),
            S + "Detector.EDS.elevation_angle": math.degrees(e["detector_elevation"]),
            S + "Detector.EDS.energy_resolution_MnKa": e["detector_resolution"],
            S + "Detector.EDS.live_time": e["live_time"],
            S + "Detector.EDS.real_time": e["real_time"],
            S + "beam_energy": e["high_tension"] / 1e3,
        }
        if "working_distance" in e:
            exp[S + "working_distance"] = e["working_distance"] * 1e3
        if "sample_tilt_angle" in e:
            exp[S + "Stage.tilt_alpha"] = math.degrees(e["sample_tilt_angle"])
    if o:
        if not imported:
            exp[S + "beam_energy"] = o["kv"]
        exp.update({S + "microscope": o["iid"], S + "Stage.x": o["sample"][0] * 1e3, S + "Stage.y": o["sample"][1] * 1e3})
    for k, v in exp.items():
        g = sigs.get(md, k)
        ctx.expect(g == v if isinstance(v, str) else isinstance(g, float) and gen.close(g, v, 1e-9, 1e-300), "metadata", f"{k}: {g!r} expected {v!r}")


def check_analysis(ctx, r, a, im, v, fname):
    k = a["kind"]
    o = im["picture"] and im["picture"]["om"]
    lab = im["label"]
    title = f"{lab}, Difference {a['ab'][0]} - {a['ab'][1]}" if k == "difference" else f"{lab}, {dict(msa='MSA', spot='Spot', line='Line', map='Map', region='Region')[k]} {a['nr']}"
    check_metadata(ctx, r, title, o and o["time"], "EDS_SEM", fname)
    sigs.check_structure(ctx, r)
    exp = np.array(a["counts"], dtype="u4").reshape(a["shape"] + (a["nb"],)) if k in ("line", "map") else np.array(a["spectrum"])
    got = np.asarray(r["data"])
    ctx.expect(got.dtype.kind in "ui" and got.shape == exp.shape and np.array_equal(got, exp), "counts", lambda: f"{got.dtype} {gen.short(got, 200)} expected {gen.short(exp, 200)}")
    e = r["axes"][-1]
    ctx.expect(
        e["units"] == "keV" and gen.close(e["scale"], a["dispersion"] / 1e3) and gen.close(e["offset"], a["offset"] / 1e3, 1e-9, 1e-12) and not e["navigate"],
        "energy axis",
        f"{e} for {a['offset']!r} + {a['dispersion']!r} n eV",
    )
    if k == "line":
        n = r["axes"][0]
        ctx.expect(n["navigate"] and n["scale"] == 1 and n["offset"] == 0, "line axis", f"{n}")
    if k == "map":
        ctx.expect([x["name"] for x in r["axes"][:2]] == ["y", "x"] and all(x["navigate"] for x in r["axes"][:2]), "map axes", f"{r['axes']}")
        ny, nx = im["picture"]["data"][1][:2]
        field = max(metre(o["h"]) * ny, metre(o["w"]) * nx) * o["scale"]
        if a["shape"][0] == a["shape"][1]:
            for x in r["axes"][:2]:
                u = UNITS.get(x["units"].replace("µ", "u"))
                ctx.expect(u is not None and gen.close(x["scale"] * u * a["shape"][0], field, 1e-9), "map axes", f"{x} for a field of {field}")
    om = r["original_metadata"]
    P = "acquisition.scan.detectors.EDS."
    if k in ("line", "map"):
        w = want_eds(a["eds2"], v, o)
        w["live_time"], w["real_time"] = a["eds"]["values"][3], a["eds"]["values"][4]
        shape = a["shape"]
        for n in ("real", "live"):
            t = a[n]
            w[n + "_time_values"] = np.array(t, float).reshape(shape) if isinstance(t, list) else np.full(shape, t)
        if k == "line":
            w.update(begin=dict(x=a["xy"][0], y=a["xy"][1]), end=dict(x=a["xy"][2], y=a["xy"][3]), offset=a["offset"], dispersion=a["dispersion"], high_accuracy_quantification=a["high"])
    else:
        w = want_eds(a["eds"], v, o)
        w.update(
            offset=a["offset"],
            dispersion=a["dispersion"],
            included_elements=sym(a["included"]),
            excluded_elements=sym(a["excluded"]),
            background_fit_bins=a["bins"],
            selected_oxides=[SYMBOLS[i - 1] + (str(m) if m > 1 else "") + "O" + (str(n) if n > 1 else "") for i, m, n in a["oxides"]],
            auto_id=a["auto"],
            order_nr=a["nr"],
            family_overrides=[(SYMBOLS[i - 1], "KLMNOP"[f - 1]) for i, f in a["families"]],
            drift_correction={1: "on", 2: "off"}.get(a["drift"], "unknown") if v >= 2 else "unknown",
            ignored_elements=sym(a["ignored"]) if v >= 4 else [],
        )
        if k == "spot":
            w["position"] = dict(x=a["xy"][0], y=a["xy"][1])
        if k == "region":
            w["rectangle"] = dict(zip(("left", "top", "right", "bottom"), a["xy"]))
    check_entries(ctx, om, {P + n: x for n, x in w.items()})
    if o and k != "msa":
        check_entries(ctx, om, {"acquisition.scan.detectors.SED.gain": "5", "instrument.uniqueID": o["iid"], "acquisition.scan.scanScale": repr(o["scale"])})
    others = {"position", "rectangle", "begin"} - set(w)
    ctx.expect(not others & set(sigs.get(om, P[:-1])), "settings", "settings of another analysis")
    # spectra of an image of their own (MSA) may come from another microscope
    check_mapped(ctx, r, o, w, imported=k == "msa")


def check(case, ctx):
    from rsciio.phenom import file_reader

    path = ctx.path("project.elid")
    with open(path, "wb") as f:
        f.write(encode(case))
    rs = ctx.sut(file_reader, path)
    n = sum(bool(i["picture"]) + len(i["analyses"]) for i in case["images"])
    ctx.label(f"version {case['version']}", f"{len(case['images'])} images")
    ctx.expect(len(rs) == n, "number of signals", f"{len(rs)} instead of {n}")
    it = iter(rs)
    v = case["version"]
    for im in case["images"]:
        if im["picture"]:
            check_image(ctx, next(it), im, "project.elid")
        for a in im["analyses"]:
            ctx.label(a["kind"])
            check_analysis(ctx, next(it), a, im, v, "project.elid")
            ctx.nontrivial()


PROP = Prop("C31", "the project has at least one analysis", [Sub("elid", cases, check, quick=700, shards=7)])

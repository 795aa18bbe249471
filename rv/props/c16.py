"""C16: PantaRhei prz files, written by rosettasciio or by an independent encoder."""

import json

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

DTYPES = ["u1", "u2", "i4", "f4", "f8", "c8", "<u2", ">f4", "i8", "?"]
val = st.floats(min_value=1e-3, max_value=1e6, allow_nan=False)
PREFIX = {"nm": (1e-9, "m"), "µm": (1e-6, "m"), "um": (1e-6, "m"), "mrad": (1e-3, "rad"), "eV": (1, "eV"), "s": (1, "s"), "m": (1, "m"), "px": (1, "px"), "mm": (1e-3, "m"), "1/nm": (1, "1/nm"), "pA": (1e-12, "A")}
stamp = st.datetimes().map(lambda d: d.replace(microsecond=0, year=max(d.year, 1000)))


@st.composite
def metadata(draw):
    md = {"General": {"title": draw(gen.text(blacklist=".", min_size=1, max_size=12))}, "Signal": {"signal_type": draw(st.sampled_from(["", "EELS", "EDS_TEM"]))}}
    if draw(st.booleans()):
        d = draw(stamp)
        md["General"]["date"] = d.date().isoformat()
        md["General"]["time"] = d.time().isoformat()
    if draw(st.integers(0, 2)):
        tem = {}
        for k in ("beam_energy", "convergence_angle", "camera_length", "magnification"):
            if draw(st.booleans()):
                tem[k] = draw(st.one_of(st.integers(1, 10**6), val))
        eels = {}
        if draw(st.booleans()):
            eels["collection_angle"] = draw(val)
        if draw(st.booleans()):
            eels["aperture"] = draw(st.sampled_from([5, 2.5, "Out", "1.5 mm", "3 mm"]))
        if eels:
            tem["Detector"] = {"EELS": eels}
        tem["acquisition_mode"] = draw(st.sampled_from(["STEM", "TEM"]))
        md["Acquisition_instrument"] = {"TEM": tem}
    return md


@st.composite
def cases(draw):
    nsig = draw(st.sampled_from([1, 1, 2]))
    nnav = draw(st.integers(0, 3))
    energy = nsig == 1 and draw(st.booleans())
    scan = energy and nnav == 2 and draw(st.booleans())
    shape = tuple(draw(st.integers(2, 5)) for _ in range(nnav)) + tuple(draw(st.integers(1, 7)) for _ in range(nsig))
    axes = []
    for i, s in enumerate(shape):
        nm = draw(st.sampled_from(["x", "foo", None]))
        if i >= nnav and energy:
            nm = draw(st.sampled_from(["Energy loss", "Energy"]))
        elif scan:
            nm = ["ScanY", "ScanX"][i]
        axes.append(dict(name=nm, size=s, scale=draw(val) * draw(st.sampled_from([1, 1, -1])), offset=draw(st.one_of(st.just(0.0), st.floats(-1e4, 1e4))), units=draw(st.sampled_from(sorted(PREFIX) + [None])), navigate=i < nnav))
    return dict(
        nnav=nnav,
        energy=energy,
        scan=scan,
        axes=axes,
        data=(draw(st.sampled_from(DTYPES)), shape, draw(gen.modes), draw(gen.seeds)),
        layout=draw(st.sampled_from(gen.LAYOUTS + ["lazy"])),
        md=draw(metadata()),
    )


def expected_axes(c):
    """name, calibration in base units"""
    out = []
    n = len(c["axes"])
    nsig = n - c["nnav"]
    for i, a in enumerate(c["axes"]):
        if c["scan"] and i < 2:
            name = a["name"]
        elif i < c["nnav"]:
            name = "PlotIndex" if nsig == 1 and i == c["nnav"] - 1 and not c["energy"] else "Index"
        elif c["energy"]:
            name = "Energy"
        else:
            name = "YX"[i - n]
        f, u = PREFIX.get(a["units"], (1, None))
        e = dict(name=name, size=a["size"], navigate=a["navigate"], scale=a["scale"] * f, offset=a["offset"] * f, _tol=(1e-9, abs(a["scale"]) * f * a["size"] * 1e-9))
        if u is not None:
            e["units"] = u
        out.append(e)
    return out


def check_metadata(ctx, got, c, filename, dims):
    md = c["md"]
    g = got.get("General", {})
    ctx.expect(g.get("title") == md["General"]["title"], "title", f"{g}")
    ctx.expect(g.get("original_filename") == filename, "original_filename", f"{g}")
    for k in ("date", "time"):
        ctx.expect(g.get(k) == md["General"].get(k), k, f"{g} expected {md['General']}")
    eels = md["Signal"]["signal_type"] == "EELS" and dims == 1
    ctx.expect(got.get("Signal", {}).get("signal_type", "") == ("EELS" if eels else ""), "signal_type", f"{got.get('Signal')}")
    exp = md.get("Acquisition_instrument", {}).get("TEM", {})
    tem = got.get("Acquisition_instrument", {}).get("TEM", {})
    flat = lambda d: {**{k: v for k, v in d.items() if k != "Detector"}, **d.get("Detector", {}).get("EELS", {})}  # noqa: E731
    e, t = flat(exp), flat(tem)
    if isinstance(e.get("aperture"), str) and "mm" in e["aperture"]:
        e["aperture"] = float(e["aperture"][:-2])
    ctx.expect(set(e) == set(t), "metadata-keys", f"{t} expected {e}")
    for k in e:
        same = e[k] == t[k] if isinstance(e[k], str) else gen.close(t[k], e[k], 1e-12)
        ctx.expect(same, "metadata-" + k, f"{t[k]!r} expected {e[k]!r}")


def check_roundtrip(c, ctx):
    from rsciio.pantarhei import file_reader, file_writer

    data = gen.make_array(c["data"])
    src = sigs.lazy_of(data) if c["layout"] == "lazy" else gen.relayout(data, c["layout"])
    axes = [dict(a, index_in_array=i, _type="UniformDataAxis", is_binned=False) for i, a in enumerate(c["axes"])]
    p = ctx.path("a.prz")
    ctx.label(f"nav{c['nnav']}", f"sig{len(axes) - c['nnav']}", "energy" if c["energy"] else "plain", c["md"]["Signal"]["signal_type"] or "none", c["layout"])
    ctx.nontrivial(data.size > 3)
    ctx.sut(file_writer, p, sigs.signal(src, axes, metadata=c["md"]))
    ea = expected_axes(c)
    for lazy in (False, True):
        r = ctx.sut(file_reader, p, lazy=lazy, allow_restricted_pickle=True)
        ctx.expect(len(r) == 1, "count")
        sigs.check_structure(ctx, r[0])
        sigs.check_data(ctx, r[0]["data"], data, lazy=lazy)
        sigs.check_axes(ctx, r[0]["axes"], ea)
        check_metadata(ctx, r[0]["metadata"], c, "a.prz", len(axes) - c["nnav"])
    if c["layout"] == "C":  # without metadata the data can still be read, in the order of the file
        r = ctx.sut(file_reader, p)
        ctx.expect(r[0]["data"].size == data.size, "plain-data")
    # what was read can be saved again
    q = ctx.path("b.prz")
    r = ctx.sut(file_reader, p, allow_restricted_pickle=True)[0]
    sig = sigs.signal(r["data"], [dict(a, index_in_array=i) for i, a in enumerate(r["axes"])], metadata=r["metadata"], original_metadata=r["original_metadata"])
    ctx.sut(file_writer, q, sig)
    r = ctx.sut(file_reader, q, allow_restricted_pickle=True)[0]
    sigs.check_structure(ctx, r)
    sigs.check_data(ctx, r["data"], data, key="again-data")
    sigs.check_axes(ctx, r["axes"], [{k: v for k, v in a.items() if k in ("size", "navigate")} for a in ea])


# ----------------------------------------------------------- files of Panta Rhei

NAV = ["ScanY", "ScanX", "Index", "PlotIndex"]
SIG = [["CameraY", "CameraX"], ["Energy"], ["Pixel", "Energy"], ["*"], ["CameraX"], [None, None], [None]]


@st.composite
def foreign(draw):
    nav = [n for n in NAV if draw(st.integers(0, 2)) == 0]
    sig = draw(st.sampled_from(SIG))
    labels = nav + sig
    perm = draw(st.permutations(range(len(labels)))) if None not in sig else list(range(len(labels)))
    if not nav and None not in sig and draw(st.booleans()):
        perm = list(range(len(labels)))
    shape = tuple(draw(st.integers(2, 5)) if i < len(nav) else draw(st.integers(1, 6)) for i in range(len(labels)))

    def calib():
        if draw(st.integers(0, 5)) == 0:
            return None
        d = dict(name="Length", value=draw(val), offset=draw(st.floats(-1e3, 1e3)), unit=draw(st.sampled_from(["m", "eV", "rad"])), use_prefix=True)
        if draw(st.booleans()):
            d["pixel_factor"] = float(draw(st.integers(1, 512)))
        if draw(st.integers(0, 4)) == 0:
            del d["unit"]
        return d

    return dict(
        labels=labels,
        perm=list(perm),
        shape=shape,
        calib=[calib() for _ in labels],
        user=draw(st.booleans()),
        trivial=draw(st.booleans()),
        data=(draw(st.sampled_from(DTYPES)), shape, draw(gen.modes), draw(gen.seeds)),
        order=draw(st.sampled_from("CCF")),
        stored=draw(st.integers(0, 3)) > 0,
        eels=draw(st.booleans()),
        source=draw(st.sampled_from(["camera", "scan_generator", None])),
        fields={
            k: draw(val)
            for k in ("electron_gun.voltage", "filter.ht_offset", "condenser.convergence_semi_angle", "filter.collection_semi_angle", "projector.camera_length", "projector.magnification", "scan_driver.magnification")
            if draw(st.booleans())
        },
        aperture=draw(st.sampled_from([None, "5 mm", "2.5mm", "Out"])),
        time=draw(st.one_of(st.none(), st.datetimes())),
        timekey=draw(st.sampled_from(["acquisition.time", "camera.time"])),
        name=draw(st.sampled_from([None, "img.0", "scan 12.3", "x"])),
        typ=draw(st.sampled_from(["2D", "3D", "4D"])),
        chunks=draw(st.sampled_from(["auto", None, 2])),
    )


def check_foreign(c, ctx):
    from rsciio.pantarhei import file_reader

    canon = gen.make_array(c["data"])
    # numpy dimension k of the file is dimension perm[k] of the result
    raw = np.transpose(canon, c["perm"])
    raw = np.asarray(raw, order=c["order"])
    lab = [c["labels"][i] for i in c["perm"]]
    cal = [c["calib"][i] for i in c["perm"]]
    if c["trivial"]:
        raw = raw[np.newaxis]
        lab = ["Index"] + lab
        cal = [None] + cal
    md = dict(c["fields"])
    md["type"] = c["typ"]
    md["content.types"] = lab[::-1]
    md["device.calib"] = cal[::-1]
    md["size"] = list(raw.shape[::-1])
    md["ref_size"] = [float(s * 2) for s in raw.shape[::-1]]
    if c["user"]:
        md["user.calib"] = [dict(value=float(i)) for i in range(raw.ndim)]
    if c["eels"]:
        md["filter.mode"] = "EELS"
    if c["source"]:
        md["source.type"] = c["source"]
    if c["aperture"]:
        md["filter.aperture"] = c["aperture"]
    if c["time"]:
        md[c["timekey"]] = c["time"].isoformat()
    if c["name"]:
        md["repo_id"] = c["name"]
    p = ctx.path("f.prz")
    with open(p, "wb") as f:
        (np.savez if c["stored"] else np.savez_compressed)(f, data=raw, meta_data_json=json.dumps([md]), file_format_version=2, data_model="{}")
    ctx.label("stored" if c["stored"] else "compressed", c["order"], f"nd{canon.ndim}", "moved" if c["perm"] != sorted(c["perm"]) else "in-order", "trivial" if c["trivial"] else "full")
    ctx.nontrivial(canon.size > 3)
    flip = [i for i, name in enumerate(c["labels"]) if name == "Energy"] if c["eels"] else []
    exp = np.flip(canon, flip)
    names = list(c["labels"])
    for i, n in enumerate(names):
        if n is None:
            names[i] = "YX"[i - len(names)]
    ea = []
    for i, (n, s, k) in enumerate(zip(names, canon.shape, c["calib"])):
        e = dict(name=n, size=s, navigate=n in NAV)
        if k:
            e["scale"] = k["value"] * k.get("pixel_factor", 1)
            e["offset"] = k["value"] * k["offset"]
            if i in flip:
                e["offset"] = -(e["offset"] + e["scale"] * (s - 1))
            e["_tol"] = (1e-9, 1e-9)
            if "unit" in k:
                e["units"] = k["unit"]
        ea.append(e)
    for lazy in (False, True):
        kw = {}
        if lazy and c["chunks"] is not None:
            kw["chunks"] = c["chunks"] if c["chunks"] == "auto" else (c["chunks"],) * raw.ndim
        r = ctx.sut(file_reader, p, lazy=lazy, **kw)
        ctx.expect(len(r) == 1, "count")
        r = r[0]
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], exp, lazy=lazy)
        if lazy and kw.get("chunks", "auto") != "auto":
            ctx.expect(all(max(x) <= 2 for x in r["data"].chunks), "chunks", f"{r['data'].chunks}")
        sigs.check_axes(ctx, r["axes"], ea)
        for a, k in zip(r["axes"], c["calib"]):
            if not (k and "unit" in k):
                ctx.expect("units" not in a or a["units"] is None, "units-invented", f"{a}")
        om = r["original_metadata"]
        ctx.expect(om["size"] == list(canon.shape), "om-size", f"{om['size']}")
        ctx.expect(om["content.types"] == c["labels"], "om-content", f"{om['content.types']}")
        ctx.expect(om["device.calib"] == c["calib"], "om-calib")
        for k, v in c["fields"].items():
            ctx.expect(om[k] == v, "om-field", k)
        m = r["metadata"]
        f = c["fields"]
        tem = m.get("Acquisition_instrument", {}).get("TEM", {})
        e = {}
        if "electron_gun.voltage" in f:
            e["beam_energy"] = (f["electron_gun.voltage"] + f.get("filter.ht_offset", 0)) / 1000
        if "condenser.convergence_semi_angle" in f:
            e["convergence_angle"] = f["condenser.convergence_semi_angle"] * 1000
        if "projector.camera_length" in f:
            e["camera_length"] = f["projector.camera_length"]
        key = {"camera": "projector", "scan_generator": "scan_driver"}.get(c["source"])
        if key and f"{key}.magnification" in f:
            e["magnification"] = f[f"{key}.magnification"]
        for k in ("beam_energy", "convergence_angle", "camera_length", "magnification"):
            ctx.expect((k in tem) == (k in e) and (k not in e or gen.close(tem[k], e[k], 1e-12)), "metadata-" + k, f"{tem.get(k)} expected {e.get(k)}")
        ctx.expect(tem.get("acquisition_mode") == {"camera": "TEM", "scan_generator": "STEM"}.get(c["source"]), "mode")
        eels = tem.get("Detector", {}).get("EELS", {})
        ca = f.get("filter.collection_semi_angle")
        ctx.expect(gen.close(eels["collection_angle"], ca * 1000, 1e-12) if ca else "collection_angle" not in eels, "collection_angle")
        ctx.expect(eels.get("aperture") == {None: None, "5 mm": 5.0, "2.5mm": 2.5, "Out": "Out"}[c["aperture"]], "aperture", f"{eels}")
        g = m["General"]
        ctx.expect(g.get("title") == {None: None, "img.0": "img", "scan 12.3": "scan 12", "x": "x"}[c["name"]], "title", f"{g}")
        if c["time"]:
            ctx.expect((g["date"], g["time"]) == (c["time"].date().isoformat(), c["time"].time().isoformat()), "date-time", f"{g}")
        nsig = sum(not a["navigate"] for a in r["axes"])
        ctx.expect((m.get("Signal", {}).get("signal_type") == "EELS") == (c["eels"] and nsig == 1), "signal_type")


# ------------------------------------------------ dimensions without content type


@st.composite
def untyped(draw):
    typ = draw(st.sampled_from(["1D", "1D", "2D", "3D", "Stack", "4D", None]))
    nd = {"1D": draw(st.integers(1, 3)), "2D": 2, "3D": 3, "Stack": 3, "4D": 4, None: draw(st.integers(1, 4))}[typ]
    shape = tuple(draw(st.integers(1, 4)) for _ in range(nd))
    calib = [dict(value=draw(val), offset=draw(st.floats(-1e3, 1e3)), unit=draw(st.sampled_from(["m", "eV", "rad"]))) for _ in range(nd)]
    return dict(
        typ=typ,
        # the dimension of the signal only, although there are more
        partial=typ == "1D" and nd > 1 and draw(st.booleans()),
        explicit=draw(st.booleans()),
        shape=shape,
        calib=calib,
        # number of dimensions with a calibration of the device
        device=draw(st.integers(0, nd)),
        inherited=draw(st.booleans()),
        data=(draw(st.sampled_from(DTYPES)), shape, draw(gen.modes), draw(gen.seeds)),
        fields=draw(st.booleans()),
    )


def check_untyped(c, ctx):
    from rsciio.pantarhei import file_reader

    data = gen.make_array(c["data"])
    nd = data.ndim
    # in the order of numpy
    if c["typ"] == "1D":
        labels = ["Index", "PlotIndex", "X"][-nd:]
    else:
        labels = (["Index"] * (nd - 2) + ["Y", "X"])[-nd:] if nd > 1 else ["X"]
    content = [None if x in "XY" else x for x in labels][::-1]
    device = c["calib"][::-1][: c["device"]]
    md = {"type": c["typ"], "size": list(data.shape[::-1]), "ref_size": [float(2 * s) for s in data.shape[::-1]]}
    if c["partial"]:
        md["content.types"] = content[: nd - 1]
    elif c["explicit"]:
        md["content.types"] = list(content)
    if c["typ"] is None:
        del md["type"]
    if c["device"]:
        md["device.calib"] = device
    if c["inherited"]:
        md["inherited.calib"] = [dict(k, value=k["value"] * (1 if c["device"] <= i else 3)) for i, k in enumerate(c["calib"][::-1])]
    p = ctx.path("u.prz")
    with open(p, "wb") as f:
        np.savez(f, data=data, meta_data_json=json.dumps([md]), file_format_version=2, data_model="{}")
    keep = [i for i in range(nd) if not (data.shape[i] == 1 and "Index" in labels[i])]
    ctx.label(str(c["typ"]), f"nd{nd}", f"removed{nd - len(keep)}", "partial" if c["partial"] else "explicit" if c["explicit"] else "implicit")
    ctx.nontrivial(nd > 1)
    ea = []
    for i in keep:
        e = dict(name=labels[i], size=data.shape[i], navigate="Index" in labels[i])
        if nd - 1 - i < c["device"] or c["inherited"]:
            k = c["calib"][i]
            e.update(scale=k["value"], offset=k["value"] * k["offset"], units=k["unit"], _tol=(1e-9, 1e-9))
        ea.append(e)
    # (ScanY, ScanX, Index, PlotIndex is the order of the result already)
    for lazy in (False, True):
        r = ctx.sut(file_reader, p, lazy=lazy)[0]
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], data.reshape([data.shape[i] for i in keep]), lazy=lazy)
        sigs.check_axes(ctx, r["axes"], ea)
        for a, e in zip(r["axes"], ea):
            ctx.expect("scale" in e or "scale" not in a, "calibration-invented", f"{a}")
        om = r["original_metadata"]
        ctx.expect(om["size"] == [data.shape[i] for i in keep], "om-size", f"{om['size']} of {data.shape}, {labels}")
        if "content.types" in md and not c["partial"]:
            ctx.expect(om["content.types"] == [None if labels[i] in "XY" else labels[i] for i in keep], "om-content", f"{om['content.types']} of {labels}")


PROP = Prop(
    "C16",
    "more than three data values",
    [Sub("roundtrip", cases, check_roundtrip, quick=1200, shards=3), Sub("foreign", foreign, check_foreign, quick=1500, shards=3), Sub("untyped", untyped, check_untyped, quick=600, shards=2)],
)

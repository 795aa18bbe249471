"""C37: Delmic HDF5 files (Odemis)."""

import datetime
import json
import warnings

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

ORDER = ["pmt", "ar", "ek1", "temporal spectrum", "temporal", "spectrum", "se", "anchor", "unknown", "survey"]
CL = ORDER[:6]
TYPES = {"temporal spectrum": "LumiTransientSpectrum", "temporal": "LumiTransient", "spectrum": "CL_SEM"}
NAMES = {"C": "Wavelength", "T": "Time", "A": "Angle", "Z": "Z", "Y": "Y", "X": "X"}
SORTED = ["Z", "Y", "X", "Time", "Angle", "Wavelength"]
PREFIX = {"f": 1e-15, "p": 1e-12, "n": 1e-9, "µ": 1e-6, "m": 1e-3, "": 1.0}
SE, SURVEY, PMT, DRIFT = "Secondary electrons concurrent", "Secondary electrons survey", "CL intensity", "Anchor region"
KINDS = ["pmt", "ar", "ek1", "temporal spectrum", "temporal", "spectrum", "se", "anchor", "survey", "angle", "other"]
words = st.text("abcXYZ 012.-µ€", min_size=1, max_size=8)
# values of PhysicalData: (value, as array, state)
values = st.one_of(
    st.integers(-5, 1000),
    st.floats(-1e6, 1e6, allow_nan=False),
    words,
    st.lists(st.floats(-100, 100), min_size=2, max_size=2),
)
states = st.sampled_from([None, 112, 113, 114, 115, 111])


@st.composite
def acquisitions(draw, kind=None):
    kind = kind or draw(st.sampled_from(KINDS))
    n = lambda lo=1, hi=5: draw(st.integers(lo, hi))  # noqa: E731
    c = t = a = z = 1
    y, x = n(), n()
    if kind in ("ek1", "temporal spectrum", "spectrum"):
        c = n(2, 6)
    if kind in ("temporal spectrum", "temporal", "anchor"):
        t = n(2, 4)
    if kind in ("ek1", "angle"):
        a = n(2, 4)
    if kind == "other":
        z = n(1, 3)
    second = "A" if a > 1 else "T" if t > 1 else draw(st.sampled_from("TA"))
    dims = "C" + second + "ZYX"
    size = dict(zip(dims, (c, a if second == "A" else t, z, y, x)))
    if draw(st.integers(0, 5)) == 0:
        dims = "".join(draw(st.permutations(dims)))
    scale = lambda: draw(st.sampled_from([1.0, 2.5, 9.99, 480.0, 0.12])) * draw(st.sampled_from([1e-12, 1e-9, 1e-9, 1e-6, 1e-6, 1e-3, 1.0]))  # noqa: E731
    scales = {}
    for d in dims:
        if d in "ZYX":
            if draw(st.integers(0, 9)):
                scales[d] = (scale(), draw(st.sampled_from([0.0, 1.5e-6, -3e-3, 0.2])))
        elif size[d] > 1 and draw(st.integers(0, 9)):
            first, step = scale(), scale()
            v = [first + step * i for i in range(size[d])]
            if draw(st.booleans()):
                v = [w + step / 8 * (i % 3) for i, w in enumerate(v)]
            if draw(st.integers(0, 4)) == 0:
                v = v[::-1]
            scales[d] = v
    title = {"pmt": PMT, "se": SE, "survey": SURVEY, "anchor": DRIFT}.get(kind)
    if title is None:
        # the dimensions come first
        title = draw(st.one_of(words, st.sampled_from([PMT, SE, SURVEY, "Angle-resolved", "Spectrum"]))) if kind not in ("other",) else draw(words)
    if kind == "pmt":
        size["Y"] += 1
    return dict(
        kind=kind,
        dims=dims,
        size=size,
        scales=scales,
        dt=draw(st.sampled_from(["u1", "u2", "u2", ">u2", "i4", "f4", "f8"])),
        mode=draw(gen.modes),
        seed=draw(gen.seeds),
        description=title,
        title=draw(st.one_of(st.just(title), words)),
        date=draw(st.one_of(st.none(), st.integers(0, 2_000_000_000), st.floats(1.6e9, 1.8e9))),
        pol=draw(st.sampled_from([None, None, "lhc", "vertical", "45°"])),
        extra=draw(st.one_of(st.none(), st.dictionaries(words, st.one_of(words, st.lists(st.integers(0, 9), max_size=3), st.none()), max_size=3))),
        values=draw(st.dictionaries(st.sampled_from(["Magnification", "IntegrationTime", "HardwareName", "Bandwidth", "Baseline", "MicroscopeModeStr"]), st.tuples(values, st.booleans(), states), max_size=4)),
        no=draw(st.sampled_from([None] * 8 + ["title", "description"])) if kind in ("spectrum", "temporal", "ek1", "temporal spectrum") else None,
        compression=draw(st.booleans()),
    )


@st.composite
def files(draw):
    n = draw(st.integers(0, 5))
    acqs = [draw(acquisitions()) for _ in range(n)]
    acqs = [a for a in acqs if a["kind"] != "ar"]
    ar = None
    if draw(st.integers(0, 2)) == 0:
        acqs = [a for a in acqs if a["kind"] != "se"]
        y, x = draw(st.integers(1, 3)), draw(st.integers(1, 4))
        pols = draw(st.lists(st.sampled_from(["lhc", "rhc", "vertical", None]), min_size=1, max_size=2, unique=True))
        base = draw(acquisitions("ar"))
        se = draw(acquisitions("se"))
        with_se = draw(st.sampled_from([True, True, True, False]))
        if with_se:
            se["size"].update(Y=y, X=x)
            se["dims"] = "CTZYX" if "T" in se["size"] else "CAZYX"
            acqs.append(se)
        base["dims"] = "CTZYX" if "T" in base["size"] else "CAZYX"
        missing = draw(st.sampled_from([0, 0, 0, 0, 1]))
        start = draw(st.integers(1_600_000_000, 1_700_000_000))
        ar = []
        for k, p in enumerate(pols):
            for i in range(y * x):
                ar.append(dict(base, pol=p, date=start + (i * len(pols) + k) * draw(st.sampled_from([1.0, 0.5])) + 0.25, seed=base["seed"] + 100 * k + i, position=i))
            if missing and k == 0:
                ar.pop()
        # dates must be strictly increasing with the position
        for p in pols:
            mine = [a for a in ar if a["pol"] == p]
            for i, a in enumerate(mine):
                a["date"] = start + i * 2.5 + 0.125
        acqs += ar
    acqs = draw(st.permutations(acqs)) if draw(st.booleans()) else acqs
    return dict(
        acqs=list(acqs),
        preview=draw(st.booleans()),
        junk=draw(st.lists(st.sampled_from(["dataset", "nodata", "noimage", "nophysical", "nosvi", "four", "othername"]), max_size=2, unique=True)),
        signal=draw(st.sampled_from(["all", "all", "all", "cl", None, "se", "survey", "anchor"])),
        bad=draw(st.sampled_from([None] * 9 + ["lazy", "name"])),
    )


def data_of(a):
    shape = tuple(a["size"][d] for d in a["dims"])
    return gen.make_array((a["dt"], shape, a["mode"], a["seed"]))


def put_state(ds, state, scalar=False):
    if state is not None:
        ds.attrs["State"] = np.int32(state) if scalar else np.array([state], dtype="i4")


def write_acq(h, name, a, what=None):
    import h5py

    g = h.create_group(name)
    if what != "nodata":
        i = g.create_group("ImageData")
        if what != "noimage":
            d = data_of(a)
            if what == "four":
                d = d[0]
            ds = i.create_dataset("Image", data=d, compression="gzip" if a["compression"] else None)
            if what != "four":
                for k, lab in enumerate(a["dims"]):
                    ds.dims[k].label = lab
        for d, s in a["scales"].items():
            if d in "ZYX":
                k = i.create_dataset("DimensionScale" + d, data=np.float64(s[0]))
                k.attrs["UNIT"] = "m"
                i.create_dataset(d + "Offset", data=np.float64(s[1]))
            else:
                i.create_dataset("DimensionScale" + d, data=np.array(s, dtype=float))
        if a["date"] is not None:
            i.create_dataset("TOffset", data=np.float64(a["date"]))
    if what != "nophysical":
        p = g.create_group("PhysicalData")
        string = h5py.string_dtype()
        if a["no"] != "title":
            p.create_dataset("Title", data=a["title"].encode())
        if a["no"] != "description":
            put_state(p.create_dataset("ChannelDescription", data=np.array([a["description"].encode()], dtype=object), dtype=string), 113)
        if a["kind"] == "ar":
            put_state(p.create_dataset("PolePosition", data=np.array([[12.5, 7.25]])), 114)
        if a["pol"] is not None:
            put_state(p.create_dataset("Polarization", data=np.array([a["pol"].encode()], dtype=object), dtype=string), 114)
        if a["extra"] is not None:
            put_state(p.create_dataset("ExtraSettings", data=np.array([json.dumps(a["extra"]).encode()], dtype=object), dtype=string), 114)
        for k, (v, array, state) in a["values"].items():
            if isinstance(v, str):
                ds = p.create_dataset(k, data=np.array([v.encode()], dtype=object), dtype=string) if array else p.create_dataset(k, data=v.encode())
            else:
                ds = p.create_dataset(k, data=np.array([v]) if array or isinstance(v, list) else np.array(v))
            put_state(ds, state, ds.ndim == 0)
        p.create_group("Nested")
    if what != "nosvi":
        s = g.create_group("SVIData")
        s.create_dataset("Company", data=b"Delmic")
        s.create_dataset("WriterVersion", data=b"Odemis 3.6")
        s.create_dataset("URL", data=b"www.delmic.com")


def encode(f, path):
    import h5py

    with h5py.File(path, "w") as h:
        for i, a in enumerate(f["acqs"]):
            write_acq(h, f"Acquisition{i:02d}" if len(f["acqs"]) > 10 else f"Acquisition{i}", a)
        if f["preview"]:
            h.create_group("Preview/ImageData").create_dataset("Image", data=np.zeros((3, 3)))
        plain = dict(kind="survey", dims="CTZYX", size=dict(C=1, T=1, Z=1, Y=2, X=2), scales={}, dt="u1", mode="arange", seed=0, description=SURVEY, title="junk", date=1, pol=None, extra=None, values={}, no=None, compression=False)
        for j in f["junk"]:
            if j == "dataset":
                h.create_dataset("AcquisitionData", data=np.zeros(3))
            elif j == "othername":
                write_acq(h, "Other0", plain)
            else:
                write_acq(h, "AcquisitionX" + j, plain, j)


def expected_axes(a, pixels=False):
    """{dimension: what is expected of its axis}"""
    out = {}
    for d in a["dims"]:
        n = a["size"][d]
        e = dict(name=NAMES[d], size=n, navigate=d in "ZYX")
        if d == "A" and d in a["scales"]:
            e["values"] = np.arange(n, dtype=float)
            e["unit"] = ""
        elif d in a["scales"] and d in "ZYX":
            s, c = a["scales"][d]
            s = -s if d == "Y" else s
            e["values"] = c + (np.arange(n) - (n - 1) / 2) * s
            e["scale"] = s
            e["ref"] = abs(s)
        elif d in a["scales"]:
            e["values"] = np.array(a["scales"][d])
            e["ref"] = abs(np.mean(e["values"]))
        if "ref" in e:
            e["unit"] = "s" if d == "T" else "m"
        out[d] = e
    return out


def original_metadata(a, name):
    o = {"HDF5Group": "/" + name, "SVIData": {"Company": "Delmic", "WriterVersion": "Odemis 3.6"}}
    if a["date"] is not None:
        o["AcquisitionDate"] = float(a["date"])
    if a["no"] != "description":
        o["ChannelDescription"] = a["description"]
    if a["kind"] == "ar":
        o["PolePosition"] = [12.5, 7.25]
    if a["pol"] is not None:
        o["Polarization"] = a["pol"]
    if a["extra"] is not None:
        o["ExtraSettings"] = a["extra"]
    for k, (v, array, state) in a["values"].items():
        if state != 111:
            o[k] = v
    return o


def model(f):
    """Signals of the file: [(kind, array, [axes], metadata, original_metadata)]"""
    names = [f"Acquisition{i:02d}" if len(f["acqs"]) > 10 else f"Acquisition{i}" for i in range(len(f["acqs"]))]
    out, ar, se = [], {}, None
    for name, a in zip(names, f["acqs"]):
        ax = expected_axes(a)
        kind = {"angle": "unknown", "other": "unknown"}.get(a["kind"], a["kind"])
        md = dict(title="__unnamed__" if a["no"] == "title" else a["title"], type=TYPES.get(kind, ""), pol=a["pol"], date=a["date"])
        item = dict(kind=kind, data=data_of(a), axes=[ax[d] for d in a["dims"]], md=md, om=original_metadata(a, name), acq=a)
        if kind == "ar":
            ar.setdefault(a["pol"], []).append(item)
        else:
            if kind == "se":
                se = item
            out.append(item)
    for items in ar.values():
        n = 0 if se is None else se["acq"]["size"]["Y"] * se["acq"]["size"]["X"]
        if n != len(items):
            out += items
            continue
        items = sorted(items, key=lambda i: i["acq"]["date"])
        y, x = se["acq"]["size"]["Y"], se["acq"]["size"]["X"]
        b, a = items[0]["acq"]["size"]["Y"], items[0]["acq"]["size"]["X"]
        merged = np.empty((y, x, b, a), dtype=items[0]["data"].dtype)
        for i, it in enumerate(items):
            merged[i // x, i % x] = it["data"].reshape(b, a)
        pixel = [dict(name=f"Angle {k}", size=s, values=np.arange(s, dtype=float), unit="", navigate=False) for k, s in (("B", b), ("A", a))]
        out.append(dict(kind="ar", data=merged, axes=se["axes"][-2:] + pixel, md=items[0]["md"], om=items[0]["om"], acq=items[0]["acq"]))
    for it in out:
        keep = [i for i, s in enumerate(it["data"].shape) if s > 1]
        keep.sort(key=lambda i: SORTED.index(it["axes"][i]["name"]) if it["axes"][i]["name"] in SORTED else 99)
        it["axes"] = [it["axes"][i] for i in keep]
        it["data"] = it["data"].squeeze() if not keep else np.transpose(it["data"], keep + [i for i in range(it["data"].ndim) if i not in keep]).reshape([it["data"].shape[i] for i in keep])
    out.sort(key=lambda it: ORDER.index(it["kind"]))
    return out


def check_axis(ctx, a, e):
    ctx.expect(a.get("name") == e["name"], "name of the axis", f"{a} for {e}")
    ctx.expect(bool(a.get("navigate")) == e["navigate"], "navigate of the axis", f"{a} for {e}")
    if "values" not in e:
        ctx.expect(a.get("size") == e["size"], "size of the axis", f"{a} for {e}")
        return
    units = a.get("units")
    if "ref" not in e:
        ctx.expect(not units, "units of the axis", f"{a} for {e}")
        factor = 1.0
    else:
        ctx.expect(isinstance(units, str) and units.endswith(e["unit"]) and units[: -len(e["unit"])] in PREFIX, "units of the axis", f"{a} for {e}")
        factor = PREFIX[units[: -len(e["unit"])]]
        shown = e["ref"] / factor
        ok = shown >= 1 - 1e-9 and (shown <= 1000 * (1 + 1e-9) or factor == 1)
        ctx.expect(ok or e["ref"] < 1e-15, "prefix of the units", f"{a} for {e}")
    if "axis" in a:
        v = np.asarray(a["axis"], dtype=float)
        ctx.expect("scale" not in e, "a uniform axis is given by its values", f"{a} for {e}")
    else:
        ctx.expect(a.get("size") == e["size"], "size of the axis", f"{a} for {e}")
        ctx.expect("scale" in e and gen.close(a["scale"] * factor, e["scale"], 1e-9), "scale of the axis", f"{a} for {e}")
        v = a["offset"] + np.arange(a["size"]) * a["scale"]
    top = max(np.abs(e["values"]).max(), e.get("ref", 0)) or 1
    ctx.expect(v.shape == e["values"].shape and np.allclose(v * factor, e["values"], rtol=1e-9, atol=1e-9 * top), "values of the axis", f"{v * factor} for {e}")


def compare(ctx, got, exp):
    ctx.expect(len(got) == len(exp), "number of signals", f"{[(g['metadata']['General'], g['data'].shape) for g in got]} for {[(e['kind'], e['data'].shape) for e in exp]}")
    for g, e in zip(got, exp):
        sigs.check_structure(ctx, g)
        ctx.expect(g["data"].shape == e["data"].shape, "shape", f"{g['data'].shape} for {e['data'].shape} ({e['kind']})")
        ctx.expect(g["data"].dtype.newbyteorder("=") == e["data"].dtype.newbyteorder("="), "dtype", f"{g['data'].dtype} for {e['data'].dtype}")
        ctx.expect(np.array_equal(g["data"], e["data"], equal_nan=e["data"].dtype.kind == "f"), "data", lambda g=g, e=e: f"{e['kind']}: {g['data'].tolist()} for {e['data'].tolist()}"[:1500])
        for a, b in zip(g["axes"], e["axes"]):
            check_axis(ctx, a, b)
        md, m = g["metadata"], e["md"]
        ctx.expect(md["General"].get("title") == m["title"], "title", f"{md} for {m}")
        ctx.expect(md["Signal"].get("signal_type") == m["type"], "signal_type", f"{md} for {m} ({e['kind']})")
        pos = md.get("Acquisition_instrument", {}).get("Spectrometer", {}).get("Filter", {}).get("position")
        ctx.expect(pos == m["pol"], "polarization", f"{md} for {m}")
        if m["date"] is None:
            ctx.expect("date" not in md["General"] and "time" not in md["General"], "date", f"{md}")
        else:
            # whole microseconds (rounding is the platform's)
            t = datetime.datetime.fromisoformat(md["General"]["date"] + "T" + md["General"]["time"]).replace(tzinfo=datetime.timezone.utc)
            ctx.expect(abs((t - datetime.datetime.fromtimestamp(0, datetime.timezone.utc)).total_seconds() - m["date"]) < 3e-6, "date", f"{md} for {m['date']!r}")
        d = gen.deep_diff(e["om"], g["original_metadata"])
        ctx.expect(not d, "original_metadata", f"{d}: {g['original_metadata']} for {e['om']}")


def check(f, ctx):
    from rsciio.delmic import file_reader

    for a in f["acqs"]:
        if a["kind"] == "se":
            a["pol"] = None
    path = ctx.path("d.h5")
    encode(f, path)
    if f["bad"] == "lazy":
        refused(ctx, file_reader, path, NotImplementedError, lazy=True)
        return
    if f["bad"] == "name":
        for n in ("CL", "", "spectrum", "pmt"):
            refused(ctx, file_reader, path, ValueError, signal=n)
        return
    exp = model(f)
    signal = f["signal"] or "cl"
    kinds = {"all": ORDER, "cl": CL}.get(signal, [signal])
    exp = [e for e in exp if e["kind"] in kinds]
    kw = {} if f["signal"] is None else {"signal": f["signal"]}
    if not exp:
        refused(ctx, file_reader, path, OSError, **kw)
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", DeprecationWarning)
        got = ctx.sut(file_reader, path, **kw)
    compare(ctx, got, exp)
    ctx.label("signal " + signal)
    for e in exp:
        ctx.label("kind " + e["kind"] + ("" if e["kind"] != "ar" else " merged" if e["axes"] and any("Angle" in a["name"] for a in e["axes"]) else " separate"))
    if len({e["kind"] for e in exp}) > 1 or any(e["data"].ndim > 2 for e in exp):
        ctx.nontrivial()


def refused(ctx, fn, path, error, **kw):
    ctx.started = True
    try:
        got = fn(path, **kw)
    except error:
        ctx.label("refused " + error.__name__)
        return
    except Exception as e:
        ctx.expect(False, "refusal", f"{type(e).__name__}: {e} for {kw}, not {error.__name__}")
    ctx.expect(False, "not refused", f"{kw}: {len(got)} signals")


PROP = Prop("C37", "signals of several types were compared with the contents of the file, or one of three dimensions", [Sub("odemis", files, check, quick=1600, shards=8)])

"""C35: NanoMEGAS Topspin app5 files: STEM images and precession diffraction scans."""

import contextlib
import datetime
import io
import pathlib
import uuid
from xml.sax.saxutils import escape

import hypothesis.strategies as st
import numpy as np
from hypothesis import assume

from .. import gen, sigs
from ..core import Prop, Sub, Violation

TEXT = st.text("abXYZ 09./-<&é", min_size=1, max_size=12).filter(lambda s: s.strip() == s)
NAME = st.text("abcXYZ- 09é", min_size=1, max_size=12).map(str.strip).filter(bool)
TAGS = ["StartX", "Center", "HalfWidth", "Angle", "Index", "Offset", "Scale", "X", "Y", "Enabled"]
NUMBER = st.floats(-1e6, 1e6) | st.floats(-1e-6, 1e-6)

LEAF = st.one_of(
    st.tuples(st.just("Boolean"), st.booleans()),
    st.tuples(st.just("Double"), NUMBER),
    st.tuples(st.just("String"), TEXT),
    st.tuples(st.just("UInt32"), st.integers(0, 2**32 - 1)),
    st.tuples(st.just("Int32"), st.integers(-(2**31), 2**31 - 1)),
)


def nested(depth):
    inner = LEAF if depth == 0 else LEAF | nested(depth - 1)
    return st.tuples(st.just("SomeSerializer"), st.dictionaries(st.sampled_from(TAGS), inner, min_size=1, max_size=4))


ENTRIES = st.dictionaries(TEXT, LEAF | nested(1), max_size=5)


@st.composite
def dataset(draw):
    d = dict(guid=str(draw(st.uuids())), seed=draw(gen.seeds), mode=draw(gen.modes))
    if draw(st.booleans()):
        d.update(kind="image", shape=(draw(st.integers(1, 9)), draw(st.integers(1, 9))), dtype="<f8")
        d["cal"] = [(draw(st.floats(-1e-6, 1e-6)), draw(st.floats(1e-11, 1e-7))) for _ in "xy"]
    else:
        d.update(kind="scan", nav=(draw(st.integers(1, 5)), draw(st.integers(1, 5))), shape=(draw(st.integers(1, 6)), draw(st.integers(1, 6))))
        d["dtype"] = draw(st.sampled_from(["<f4", "<f4", "<u2", "<f8", "|u1", "<i4"]))
        d["cal"] = [(draw(st.floats(-0.01, 0.01)), draw(st.floats(1e-6, 1e-3))) for _ in "xy"]
        d["units"] = draw(st.sampled_from([("Angle", "Angle"), ("mrad", "mrad"), ("Angle", "Position")]))
        d["pos"] = [(draw(st.floats(-1e-6, 1e-6)), draw(st.integers(1, 99999)) * 1e-12) for _ in "xy"]
    return d


@st.composite
def session(draw):
    return dict(
        guid=str(draw(st.uuids())),
        id=str(draw(st.uuids())),
        datasets=draw(st.lists(dataset(), min_size=1, max_size=3, unique_by=lambda d: d["guid"])),
        entries=[draw(ENTRIES), draw(ENTRIES)],
        texts={k: draw(TEXT) for k in ("ProcedureName", "FriendlyName", "Title", "SystemName", "Specimen", "Comments") if k == "Title" or draw(st.integers(0, 3))},
        date=draw(st.none() | st.datetimes(datetime.datetime(1990, 1, 1), datetime.datetime(2100, 1, 1))),
        extra=draw(st.booleans()),
    )


@st.composite
def cases(draw):
    sessions = draw(st.lists(session(), min_size=1, max_size=2, unique_by=lambda s: s["guid"]))
    if draw(st.booleans()):
        # identifiers which share their start or their end, and the same dataset identifiers in both sessions
        ids = [s["datasets"][0]["guid"] for s in sessions]
        cut = draw(st.sampled_from([8, 13, 18, 23]))
        for s in sessions:
            for d in s["datasets"][1:]:
                d["guid"] = ids[0][:cut] + d["guid"][cut:] if draw(st.booleans()) else d["guid"][:cut] + ids[0][cut:]
        for d, e in zip(sessions[-1]["datasets"], sessions[0]["datasets"]):
            d["guid"] = e["guid"]
        assume(all(len({d["guid"] for d in s["datasets"]}) == len(s["datasets"]) for s in sessions))
    single = len(sessions) == 1 and draw(st.booleans())
    which = draw(st.sampled_from([None, None, "session", "dataset", "dataset"]))
    if single and which == "session":
        which = None
    return dict(
        sessions=sessions,
        single=single,
        which=which,
        pick=(draw(st.integers(0, 9)), draw(st.integers(0, 9))),
        slash=draw(st.booleans()),
        dryrun=draw(st.integers(0, 7)) == 0,
        progress=draw(st.integers(0, 7)) == 0,
        square=draw(st.booleans()),
        name=draw(NAME),
        pathlib=draw(st.booleans()),
    )


def value(tag, v):
    kind, v = v
    if kind == "SomeSerializer":
        return f'<{tag} Serializer="{kind}" Version="1">' + "\n".join(value(k, w) for k, w in v.items()) + f"</{tag}>"
    return f'<{tag} Serializer="{kind}" Version="1">{escape(repr(v) if kind == "Double" else str(v))}</{tag}>'


def item(name, v):
    return f'<Item>\n{value("Name", ("String", name))}\n{value("Value", v)}\n</Item>'


def calibration(cal, units, tag="Calibration"):
    t = f'<{tag} Serializer="ImageCalibrationSerializer" Version="1">'
    for k, (o, s), u in zip("XY", cal, units):
        t += f'<{k} Serializer="ArrayCalibrationSerializer" Version="1">{value("Offset", ("Double", o))}{value("Scale", ("Double", s))}'
        t += f'<Type Serializer="CalibrationTypeSerializer" Version="1"><Index Serializer="Int32" Version="1">1</Index><Text Serializer="String" Version="1">{u}</Text></Type></{k}>'
    return t + f"</{tag}>"


def metadata(s):
    t = '<?xml version="1.0" encoding="utf-8"?>\n<Metadata Serializer="ProcedureDocumentSerializer" Version="2">'
    t += f'<Id Serializer="Guid" Version="1">{s["id"]}</Id><IsArchived Serializer="Boolean" Version="1">False</IsArchived>'
    if s["date"]:
        t += f'<CreatedDateTime Serializer="DateTime" Version="1">{s["date"]:%m/%d/%Y %H:%M:%S}</CreatedDateTime>'
    t += "".join(value(k, ("String", v)) for k, v in s["texts"].items())
    t += "<ProcedureData>" + "\n".join(item(k, v) for k, v in s["entries"][0].items())
    for d in s["datasets"]:
        if d["kind"] == "image":
            i = f'<Id Serializer="Guid" Version="1">{d["guid"]}</Id>' + calibration(d["cal"], ("Position",) * 2)
            t += f'<Item>{value("Name", ("String", "Result " + d["guid"]))}<Value Serializer="ImageDataSerializer" Version="1">{i}</Value></Item>'
    t += "</ProcedureData><HardwareSettings>" + "\n".join(item(k, v) for k, v in s["entries"][1].items()) + "</HardwareSettings>"
    return t + "</Metadata>"


def positions(d):
    ny, nx = d["nav"]
    (ox, sx), (oy, sy) = d["pos"]
    return [ox + i * sx for i in range(nx)], [oy + i * sy for i in range(ny)]


def array(d):
    shape = d["shape"] if d["kind"] == "image" else d["nav"] + d["shape"]
    return gen.make_array((d["dtype"], shape, d["mode"], d["seed"]))


def write(c, path):
    import h5py

    with h5py.File(path, "w") as f:
        f["Version"] = np.bytes_(b"2")
        for s in c["sessions"]:
            g = f if c["single"] else f.create_group(s["guid"])
            g["Metadata"] = np.bytes_(metadata(s).encode())
            if s["extra"]:
                g["Thumbnail"] = np.zeros(17, "u1")
            for d in s["datasets"]:
                a = array(d)
                if d["kind"] == "image":
                    g.create_dataset(d["guid"], data=a)
                    continue
                h = g.create_group(d["guid"])
                x, y = positions(d)
                for i in range(d["nav"][0]):
                    for j in range(d["nav"][1]):
                        k = h.create_group(str(i * d["nav"][1] + j))
                        k.create_dataset("Data", data=a[i, j])
                        t = f'<?xml version="1.0" encoding="utf-16"?><Metadata Serializer="SeriesItemSerializer" Version="1">{calibration(d["cal"], d["units"])}'
                        t += '<Metadata Serializer="DictionarySerializer" Version="1"><Item><Name Serializer="String" Version="1">RequestedBeamPosition</Name>'
                        t += f'<Value Serializer="ImagePositionSerializer" Version="1">{value("X", ("Double", x[j]))}{value("Y", ("Double", y[i]))}</Value></Item></Metadata></Metadata>'
                        k["Metadata"] = np.bytes_(t.encode())


def plain(v):
    kind, v = v
    return {k: plain(w) for k, w in v.items()} if kind == "SomeSerializer" else v


def same(got, want):
    if isinstance(want, dict):
        return isinstance(got, dict) and all(k in got and same(got[k], w) for k, w in want.items())
    if isinstance(want, bool):
        return (got is want) if isinstance(got, bool) else got == str(want)
    return got == want


def check(c, ctx):
    from rsciio.topspin import file_reader

    p = pathlib.Path(ctx.path(c["name"] + ".app5"))
    if c["square"]:
        for s in c["sessions"]:
            for d in s["datasets"]:
                d["cal"] = [d["cal"][0]] * 2
    write(c, p)
    tasks = []
    for s in sorted(c["sessions"], key=lambda s: s["guid"]):
        for d in sorted(s["datasets"], key=lambda d: d["guid"]):
            tasks.append((s, d, d["guid"] if c["single"] else s["guid"] + "/" + d["guid"]))
    kw = {"show_progressbar": c["progress"]}
    if c["which"] == "session":
        s = c["sessions"][c["pick"][0] % len(c["sessions"])]
        tasks = [t for t in tasks if t[0] is s]
        kw["dataset_path"] = s["guid"]
    elif c["which"] == "dataset":
        tasks = [tasks[c["pick"][1] % len(tasks)]]
        kw["dataset_path"] = tasks[0][2]
    if c["slash"] and "dataset_path" in kw:
        kw["dataset_path"] = "/" + kw["dataset_path"]
    if c["dryrun"]:
        kw["dryrun"] = True
    ctx.nontrivial(any(d["kind"] == "scan" and max(d["nav"]) > 1 for _, d, _ in tasks))
    ctx.label("single" if c["single"] else "sessions", str(c["which"]), "square" if c["square"] else "different calibrations")
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        rs = ctx.sut(file_reader, p if c["pathlib"] else str(p), **kw)
    if c["dryrun"]:
        text = out.getvalue()
        ctx.expect(rs == [], "dry run", f"{gen.short(rs)}")
        for s, d, address in tasks:
            shape = list(d["shape"] if d["kind"] == "image" else d["nav"] + d["shape"])
            ctx.expect(d["guid"] in text and str(shape) in text, "dry run", f"{address} {shape} not in {text}")
        return
    ctx.expect(len(rs) == len(tasks), "number of datasets", f"{len(rs)} instead of {len(tasks)}: {kw}")
    for r, (s, d, address) in zip(rs, tasks):
        sigs.check_structure(ctx, r)
        a = array(d)
        if d["kind"] == "image":
            want = a
            axes = []
        else:
            want = a.reshape([n for n in d["nav"] if n > 1] + list(d["shape"]))
            axes = [(n, k) for n, k in zip(d["nav"], "yx") if n > 1]
        ctx.expect(r["data"].shape == want.shape and r["data"].dtype == want.dtype and gen.arrays_equal(r["data"], want), "data", lambda: f"{gen.short(r['data'])} instead of {gen.short(want)}")
        xs = r["axes"]
        ctx.expect(len(xs) == want.ndim, "axes", f"{xs}")
        for ax, (n, k) in zip(xs, axes):
            o, step = d["pos"]["xy".index(k)]
            ctx.expect((ax["name"], ax["units"], ax["size"], ax["navigate"]) == (k, "nm", n, True), "navigation axis", f"{ax}")
            ctx.expect(gen.close(ax["offset"], o * 1e9, 1e-9, 1e-9) and abs(ax["scale"] - step * 1e9) <= 5.01e-4, "navigation calibration", f"{ax}: {o} {step}")
        names = "yx" if d["kind"] == "image" else ("ky", "kx")
        for j, (ax, k) in enumerate(zip(xs[-2:], names)):
            f = 1e9 if d["kind"] == "image" else 1
            units = "nm" if d["kind"] == "image" else d["units"][1 - j]
            ctx.expect((ax["name"], ax["size"], ax["navigate"]) == (k, d["shape"][j], False), "signal axis", f"{ax}")
            # K-C35-1: images have the calibration of x on y
            o, scale = d["cal"][j if d["kind"] == "image" and not c.get("strict") else 1 - j]
            ctx.expect(gen.close(ax["offset"], o * f) and gen.close(ax["scale"], scale * f) and ax["units"] == units, "signal calibration", f"{ax}: {d}")
        md, om = r["metadata"], r["original_metadata"]
        ctx.expect(md["Signal"].get("signal_type") == ("" if d["kind"] == "image" else "electron_diffraction"), "signal type", f"{md}")
        g = md["General"]
        ctx.expect(g["title"] == s["id"] and g["original_filename"] == p.name, "general", f"{g}")
        t = s["date"]
        ctx.expect((g.get("date"), g.get("time")) == ((f"{t:%Y-%m-%d}", f"{t:%H:%M:%S}") if t else (None, None)), "date", f"{g}: {t}")
        ctx.expect(sigs.get(md, "Sample.description") == s["texts"].get("Specimen"), "sample", f"{md}")
        for k, v in s["texts"].items():
            ctx.expect(om[k] == v and v in g["notes"], "texts", f"{k}: {v!r}: {om.get(k)} {g['notes']}")
        for k, e in zip(("ProcedureData", "HardwareSettings"), s["entries"]):
            want = {n: plain(v) for n, v in e.items()}
            ctx.expect(same(om[k], want), "original metadata", lambda: f"{k}: {om[k]} instead of {want}")


def probe(ctx):
    d = dict(guid=str(uuid.UUID(int=1)), seed=0, mode="random", kind="image", shape=(2, 3), dtype="<f8", cal=[(1e-8, 1e-9), (2e-8, 3e-9)])
    s = dict(guid=str(uuid.UUID(int=2)), id=str(uuid.UUID(int=3)), datasets=[d], entries=[{}, {}], texts={"Title": "a"}, date=None, extra=False)
    check(dict(sessions=[s], single=True, which=None, pick=(0, 0), slash=False, dryrun=False, progress=False, square=False, name="a", pathlib=False, strict=True), ctx)


PROP = Prop(
    "C35",
    "a scan of several positions is read",
    [Sub("app5", cases, check, quick=900, shards=4)],
    probes={"K-C35-1": probe},
    assumptions=["positions scanned row by row, with increasing x and y", "uncompressed contiguous patterns"],
)

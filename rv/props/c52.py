"""C52: HSPY files of former versions of the format."""

import datetime
import warnings

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

OLD = ["1.0", "1.1"]
MIDDLE = ["1.2", "1.3", "2.0", "2.1", "2.2"]
NEW = ["3.0", "3.1", "3.2", "3.3"]
NEWER = ["3.4", "3.10", "4.0", "10.1"]

texts = gen.text(8).filter(lambda s: s not in ("_None_",))
numbers = st.one_of(st.integers(-1000, 1000), st.floats(-1e6, 1e6))
leaves = st.one_of(texts, numbers, st.booleans(), st.none())
KEYS = ["a", "BEAMKV   -kV", "Über", "list", "x.y", "_y", "0", "title", "signal", "name", "exposure"]


@st.composite
def arrays(draw):
    return np.arange(draw(st.integers(1, 6))).astype(draw(st.sampled_from(["u1", "i4", "f8", "?", "S3"])))


def containers():
    item = st.one_of(numbers, texts)
    return st.one_of(
        st.lists(st.integers(-9, 9), max_size=12),
        st.lists(st.floats(-9, 9), max_size=4),
        st.lists(texts, max_size=4),
        st.lists(numbers, max_size=4).map(tuple),
        # written as groups with one item each
        st.lists(st.one_of(st.lists(st.integers(-9, 9), max_size=3), item, st.none()), min_size=1, max_size=12).map(lambda v: ("group", v)),
        st.lists(st.one_of(st.lists(st.integers(-9, 9), max_size=3).map(tuple), item), min_size=1, max_size=12).map(lambda v: ("group", tuple(v))),
        st.lists(st.dictionaries(st.sampled_from(["p", "q"]), numbers, max_size=2), min_size=1, max_size=3).map(lambda v: ("group", v)),
        st.binary(max_size=6).map(lambda b: b + b"\x00\xff"),
        arrays(),
    )


def trees(depth=2):
    v = st.one_of(leaves, leaves, containers())
    if depth:
        v = st.one_of(v, v, trees(depth - 1))
    return st.dictionaries(st.sampled_from(KEYS), v, max_size=4)


@st.composite
def experiments(draw, version):
    shape = tuple(draw(st.lists(st.integers(1, 5), min_size=1, max_size=4)))
    maybe = lambda s: draw(st.one_of(st.none(), s))  # noqa: E731
    some = lambda names: draw(st.lists(st.sampled_from(names), max_size=len(names), unique=True))  # noqa: E731
    e = dict(
        shape=shape,
        dtype=draw(st.sampled_from(["u1", "i2", "<i8", "f4", "f8", "c8", ">u2"])),
        seed=draw(gen.seeds),
        chunked=draw(st.booleans()),
        axes=[
            dict(
                name=draw(st.one_of(texts, st.none())),
                units=draw(st.one_of(st.sampled_from(["nm", "eV", "µm", ""]), st.none())),
                scale=draw(st.sampled_from([1.0, 0.25, -3.0])),
                offset=draw(st.sampled_from([0.0, 520.13, -2.0])),
                size=n,
            )
            for n in shape
        ],
        axes_style=draw(st.sampled_from(["groups", "groups", "list"])),
        title=draw(st.one_of(texts, st.just("__unnamed__"))),
        date=maybe(st.dates()),
        time=maybe(st.times().map(lambda t: t.replace(fold=0))),
        iso=draw(st.booleans()),
        filename=maybe(texts),
        signal_type=draw(st.sampled_from(["", "EELS", "EDS_TEM"])),
        record_by=draw(st.sampled_from(["spectrum", "image", ""])),
        sample=draw(st.dictionaries(st.sampled_from(["thickness", "elements_", "description"]), leaves, max_size=2)),
        xray=maybe(st.lists(st.sampled_from(["Fe_Ka", "O_Ka", "Cu_La"]), max_size=3, unique=True)),
        folding=maybe(st.booleans()),
        stacking=maybe(st.integers(0, 5)),
        variance=maybe(st.fixed_dictionaries({"gain_factor": numbers, "gain_offset": numbers})),
        tem={k: draw(numbers) for k in some(["beam_energy", "beam_current", "tilt_stage", "dwell_time", "exposure", "camera_length"])},
        tem_key=draw(st.sampled_from(["exposure", "exposure_time"])),
        units={k: "ms" for k in some(["dwell_time_units", "exposure_units"])},
        eels=maybe(st.dictionaries(st.sampled_from(["collection_angle", "aperture"]), numbers, min_size=1, max_size=2)),
        eds=maybe(st.dictionaries(st.sampled_from(["live_time", "azimuth_angle"]), numbers, min_size=1, max_size=2)),
        sem=maybe(st.dictionaries(st.sampled_from(["beam_energy", "tilt_stage", "exposure"]), numbers, min_size=1, max_size=3)),
        sem_eds=maybe(st.dictionaries(st.sampled_from(["live_time", "azimuth_angle"]), numbers, min_size=1, max_size=2)),
        om=draw(trees()),
        other=draw(trees(1)),
        learning=draw(st.sampled_from([None, "empty", "full", "full"])),
        peaks=draw(st.booleans()),
        attributes=draw(st.booleans()) and version >= [3, 3],
        package=draw(st.sampled_from([None, ("hyperspy", "1.7.3"), ("exspy", ""), ("", "")])) if version >= [3, 0] else None,
        ragged=draw(st.sampled_from([None, None, None, "shapes", "plain"])) if version >= [3, 0] else None,
        nested=draw(st.sampled_from([None, None, "groups", "list"])) if version >= [1, 2] else None,
        models=draw(st.integers(0, 2)),
    )
    return e


@st.composite
def files(draw):
    version = draw(st.sampled_from(OLD * 3 + MIDDLE + NEW + NEWER))
    v = [int(i) for i in version.split(".")]
    how = draw(st.sampled_from(["str", "bytes", "float"]))
    if version == "1.0" or (how == "float" and version == "3.10"):
        how = draw(st.sampled_from(["none", "str"])) if version == "1.0" else "str"
    elif version == "2.0" and how == "float":
        how = draw(st.sampled_from(["float", "str"]))
    return dict(
        version=version,
        how=how,
        experiments=draw(st.lists(experiments(v), min_size=1, max_size=3)),
        # what is not an experiment
        strange=draw(st.booleans()),
        alone=draw(st.booleans()),
        seed=draw(gen.seeds),
    )


def value(v):
    """The value which is read, of one generated."""
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0] == "group":
        return v[1]
    if isinstance(v, dict):
        return {k: value(i) for k, i in v.items()}
    return v


class Writer:
    def __init__(self, version):
        self.bytes = version < [1, 1]

    def attr(self, g, k, v):
        if v is None:
            v = "_None_"
        if isinstance(v, str) and self.bytes and v and not v.endswith("\x00"):
            v = np.bytes_(v.encode())
        g.attrs[k] = v

    def write(self, g, d):
        import h5py

        for k, v in d.items():
            grouped = isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0] == "group"
            v = v[1] if grouped else v
            if isinstance(v, dict):
                self.write(g.require_group(k), v)
            elif isinstance(v, np.ndarray):
                g.create_dataset(k, data=v)
            elif isinstance(v, bytes):
                g.attrs["_bs_" + k] = np.void(v)
            elif isinstance(v, (list, tuple)):
                kind = "_list_" if isinstance(v, list) else "_tuple_"
                if not v:
                    self.attr(g, f"{kind}empty_{k}", None)
                elif grouped:
                    self.write(g.create_group(f"{kind}{len(v)}_{k}"), {str(i): x for i, x in enumerate(v)})
                elif isinstance(v[0], str):
                    g.create_dataset(kind + k, data=list(v), dtype=h5py.string_dtype())
                else:
                    g.create_dataset(kind + k, data=np.array(v))
            else:
                self.attr(g, k, v)


def put(tree, path, v):
    *folders, k = path.split(".")
    for f in folders:
        tree = tree.setdefault(f, {})
    tree[k] = v


def metadata(e, version):
    """(metadata as in the file of that version, metadata as they are now)"""
    old, new = {}, {}
    before, ancient = version < [1, 2], version < [1, 1]

    def both(former, present, v, middle=None):
        put(old, former if before else middle or present, v)
        put(new, present, value(v))

    title = e["title"]
    both("name" if ancient and e["iso"] else "title", "General.title", title)
    new["General"]["title"] = "" if title == "__unnamed__" else title
    for k in ("date", "time"):
        if e[k] is not None:
            put(new, f"General.{k}", e[k].isoformat())
            folder = "" if before else "General."
            if version < [2, 0] and not e["iso"]:
                put(old, f"{folder}_datetime_{k}", repr(e[k]))
            else:
                put(old, folder + k, e[k].isoformat())
    if e["filename"] is not None:
        both("original_filename", "General.original_filename", e["filename"])
    both("signal" if ancient and e["iso"] else "signal_type", "Signal.signal_type", e["signal_type"])
    both("record_by", "Signal.record_by", e["record_by"])
    both("signal_origin", "Signal.signal_origin", "experiment")
    for k, v in e["sample"].items():
        both(f"Sample.{k}", f"Sample.{k}", v)
    if e["xray"] is not None:
        both("Sample.Xray_lines", "Sample.xray_lines", e["xray"])
    if e["folding"] is not None:
        both("_internal_parameters.folding.unfolded", "_HyperSpy.Folding.unfolded", e["folding"])
        both("_internal_parameters.folding.original_shape", "_HyperSpy.Folding.original_shape", None)
    if e["stacking"] is not None:
        both("_internal_parameters.stacking_history.axis", "_HyperSpy.Stacking_history.axis", e["stacking"])
    if e["variance"] is not None:
        for k, v in e["variance"].items():
            both(f"Variance_estimation.{k}", f"Signal.Noise_properties.Variance_linear_model.{k}", v)
    for ins, values, units, eels, eds in (("TEM", e["tem"], e["units"], e["eels"], e["eds"]), ("SEM", e["sem"] or {}, {}, None, e["sem_eds"])):
        now = f"Acquisition_instrument.{ins}"
        of_eels = ("dwell_time", "exposure", "dwell_time_units", "exposure_units")
        camera = ins == "TEM" and version < [3, 0] and not (before and eels is not None)
        for k, v in {**values, **units}.items():
            former = k
            if k == "exposure" and camera:
                former = e["tem_key"]
                both(f"{ins}.{former}", f"{now}.Detector.Camera.exposure", v, middle=f"{now}.{former}")
            elif before and eels is not None and k in of_eels:
                both(f"{ins}.{k}", f"{now}.Detector.EELS.{k}", v)
            elif k == "tilt_stage" and version < [3, 0]:
                both(f"{ins}.tilt_stage", f"{now}.Stage.tilt_alpha", v, middle=f"{now}.tilt_stage")
            else:
                both(f"{ins}.{k}", f"{now}.{k}", v)
        for name, d in (("EELS", eels), ("EDS", eds)):
            for k, v in (d or {}).items():
                both(f"{ins}.{name}.{k}", f"{now}.Detector.{name}.{k}", v)
    for k, v in e["other"].items():
        both(f"other.{k}" if "." not in k else "other.z", f"other.{k}" if "." not in k else "other.z", v)
    return old, new


def array(e):
    return gen.make_array((e["dtype"], e["shape"], "any", e["seed"])) if e["ragged"] is None else None


def ragged(e):
    rng = np.random.default_rng(e["seed"])
    out = np.empty(e["shape"], object)
    for i in np.ndindex(e["shape"]):
        if e["ragged"] == "shapes":
            out[i] = rng.normal(size=tuple(rng.integers(1, 4, size=2)))
        else:
            out[i] = rng.normal(size=int(rng.integers(1, 5)))
    return out


def write_signal(w, g, e, version, old, axes_style, data, om):
    import h5py

    before = version < [1, 2]
    if data.dtype == object:
        ds = g.create_dataset("data", data.shape, dtype=h5py.vlen_dtype(np.dtype("f8")), chunks=True)
        for i in np.ndindex(data.shape):
            ds[i] = data[i].ravel()
        if e["ragged"] == "shapes":
            sh = g.create_dataset("ragged_shapes", data.shape, dtype=h5py.vlen_dtype(np.dtype("i8")), chunks=ds.chunks)
            for i in np.ndindex(data.shape):
                sh[i] = np.array(data[i].shape)
    else:
        g.create_dataset("data", data=data, chunks=True if e["chunked"] else None)
    axes = [dict(a) for a in e["axes"]]
    for i, a in enumerate(axes):
        if before:
            a["index_in_array"] = i
        else:
            a["navigate"] = i < len(axes) // 2
        if version >= [3, 1]:
            a["_type"] = "UniformDataAxis"
            a["is_binned"] = False
    if axes_style == "groups":
        for i, a in enumerate(axes):
            w.write(g.create_group(f"axis-{i}"), a)
    else:
        w.write(g, {"axes": ("group", axes)})
    w.write(g.create_group("mapped_parameters" if before else "metadata"), old)
    w.write(g.create_group("original_parameters" if before else "original_metadata"), om)
    return axes


def plain(v):
    """Compute what is lazy."""
    if hasattr(v, "__dask_keys__"):
        return v.compute()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(plain(x) for x in v)
    return v


def same(a, b, path=""):
    """None, or where a (read) isn't b (stored)"""
    if isinstance(b, dict):
        if not isinstance(a, dict) or set(a) != set(b):
            return f"{path}: {gen.short(a)} instead of {gen.short(b)}"
        return next(filter(None, (same(a[k], b[k], f"{path}.{k}") for k in b)), None)
    if isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return f"{path}: {gen.short(a)} instead of {gen.short(b)}"
        return next(filter(None, (same(x, y, f"{path}[{i}]") for i, (x, y) in enumerate(zip(a, b)))), None)
    if isinstance(b, np.ndarray):
        b = b.astype("U") if b.dtype.kind == "S" else b
        ok = isinstance(a, np.ndarray) and a.dtype == b.dtype and gen.arrays_equal(a, b)
    elif b is None or isinstance(b, (bool, str, bytes)):
        ok = type(a) is type(b) and a == b
    else:
        ok = not isinstance(a, (str, bytes, bool, type(None))) and np.ndim(a) == 0 and a == b
    return None if ok else f"{path}: {a!r} instead of {b!r}"


def check(f, ctx):
    import h5py

    from rsciio.hspy import file_reader

    version = [int(i) for i in f["version"].split(".")]
    p = ctx.path("old.hspy")
    w = Writer(version)
    exp = {}
    lone = {}
    with h5py.File(p, "w") as h:
        if f["how"] != "none":
            h.attrs["file_format"] = "HyperSpy"
            h.attrs["file_format_version"] = {"str": f["version"], "bytes": np.bytes_(f["version"].encode()), "float": float(f["version"])}[f["how"]]
        exps = h.create_group("Experiments")
        if f["strange"]:
            exps.create_group("no data")
            exps.create_dataset("zz", data=np.arange(3))
        for n, e in enumerate(f["experiments"]):
            g = exps.create_group(f"{n} experiment")
            old, new = metadata(e, version)
            data = array(e) if e["ragged"] is None else ragged(e)
            if e["nested"]:
                # a signal in the metadata
                inner = dict(e, ragged=None)
                d2 = np.arange(int(np.prod(e["shape"])), dtype="f8").reshape(e["shape"])
                ng = g.require_group("metadata/Signal/Noise_properties/_sig_variance")
                a2 = write_signal(w, ng, inner, version, {"General": {"title": "v"}}, e["nested"], d2, {"k": 1})
                put(new, "Signal.Noise_properties._sig_variance", (d2, a2))
                w_old, om = old, e["om"]
                # the group exists
                axes = write_rest(w, g, e, version, w_old, data, om)
            else:
                axes = write_signal(w, g, e, version, old, e["axes_style"], data, e["om"])
            learning = {"": {}}
            name = "mva_results" if version < [1, 1] and e["iso"] else "learning_results"
            full = {"factors": np.arange(6.0).reshape(3, 2), "algorithm": "svd", "centre": None, "dimension": 2}
            if e["learning"]:
                learning = full if e["learning"] == "full" else {}
                w.write(g.create_group(name), learning)
            if e["peaks"]:
                w.write(g.create_group("peak_" + name), {"peaks": np.arange(4)})
            if e["attributes"]:
                w.write(g.create_group("attributes"), {"ragged": e["ragged"] is not None, "_lazy": True, "extra": "x"})
            if e["package"]:
                g.attrs["package"], g.attrs["package_version"] = e["package"]
            models = {}
            for m in range(e["models"]):
                mg = h.require_group(f"Analysis/models/{n}{m}")
                models[f"{n}{m}"] = {"_dict": {"name": f"m{m}", "map": np.arange(m + 1), "parts": ("group", [{"p": 1}, {"p": 2}])}, "date": "2019-07-19"}
                Writer([3]).write(mg, models[f"{n}{m}"])
                mg.attrs["_signal"] = g.name
            exp[n] = (data, axes, new, e, learning, {k: value(dict(v, _dict=value(v["_dict"]))) for k, v in models.items()})
        if f["alone"]:
            lone = {"date": "today", "values": np.arange(3)}
            w.write(h.require_group("Analysis/models/alone"), lone)
    for lazy in (False, True):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            rs = ctx.sut(file_reader, p, lazy=lazy)
        newer = [x for x in ws if "newer version" in str(x.message)]
        ctx.expect(bool(newer) == (f["version"] in NEWER), "warning of newer versions", f"{[str(x.message) for x in ws]} for version {f['version']}")
        ctx.expect(len(rs) == len(exp) + bool(lone), "number of signals", f"{len(rs)} of {len(exp)} and {bool(lone)}")
        if lone:
            d = same(plain(rs[-1]), {"alone": lone})
            ctx.expect(d is None, "model without signal", d)
        for n, r in enumerate(rs[: len(exp)]):
            judge(ctx, r, lazy, version, *exp[n])
    e = f["experiments"][0]
    ctx.label(f["version"], f["how"], *(["ragged " + e["ragged"]] if e["ragged"] else []), *(["nested"] if e["nested"] else []), *(["EELS"] if e["eels"] else []), e["axes_style"])
    ctx.nontrivial(f["version"] != "3.3" and any(len(metadata(e, version)[1]) > 2 for e in f["experiments"]))


def write_rest(w, g, e, version, old, data, om):
    """As write_signal, where the group of the metadata exists already."""
    nested = g["metadata/Signal/Noise_properties/_sig_variance"]
    g.move(nested.name, g.name + "/_tmp")
    del g["metadata"]
    axes = write_signal(w, g, e, version, old, e["axes_style"], data, om)
    g.require_group("metadata/Signal/Noise_properties")
    g.move(g.name + "/_tmp", g.name + "/metadata/Signal/Noise_properties/_sig_variance")
    return axes


def judge(ctx, r, lazy, version, data, axes, new, e, learning, models):
    got = r["data"]
    ctx.expect(hasattr(got, "__dask_keys__") == lazy, "lazy", type(got))
    ctx.expect(r["attributes"]["_lazy"] is lazy, "attribute _lazy", r["attributes"])
    v = sigs.compute(got)
    ctx.expect(v.shape == data.shape, "shape", f"{v.shape} instead of {data.shape}")
    if data.dtype == object:
        for i in np.ndindex(data.shape):
            ctx.expect(np.array_equal(np.asarray(v[i]), data[i]), "ragged data", f"{v[i]} instead of {data[i]}")
    else:
        ctx.expect(v.dtype == data.dtype and gen.arrays_equal(v, data), "data", f"{gen.short(v)} instead of {gen.short(data)}")
    d = same(r["axes"], axes)
    ctx.expect(d is None, "axes", d)
    md = plain(r["metadata"])
    new = dict(new, Signal=dict(new["Signal"]))
    noise = new["Signal"].get("Noise_properties")
    nested = noise and noise.get("_sig_variance")
    if nested:
        new["Signal"]["Noise_properties"] = noise = {k: x for k, x in noise.items() if k != "_sig_variance"}
        inner = md["Signal"]["Noise_properties"].pop("_sig_variance")
        ctx.expect(gen.arrays_equal(sigs.compute(inner["data"]), nested[0]), "data of a signal in the metadata", gen.short(inner["data"]))
        d = same(inner["axes"], nested[1]) or same(inner["metadata"], {"General": {"title": "v"}}) or same(inner["original_metadata"], {"k": 1})
        ctx.expect(d is None, "signal in the metadata", d)
    if version < [1, 2] and "Noise_properties" in md and noise:
        # where they were until version 1.3
        ctx.expect("Noise_properties" not in md["Signal"], "noise properties", f"{md}")
        md["Signal"]["Noise_properties"] = md.pop("Noise_properties")
    d = same(md, new)
    ctx.expect(d is None, "metadata", lambda: f"{d}; read {md}")
    d = same(plain(r["original_metadata"]), value(e["om"]))
    ctx.expect(d is None, "original metadata", d)
    at = plain(r["attributes"])
    if e["learning"]:
        d = same(at.get("learning_results", {}), learning)
        ctx.expect(d is None, "learning results", d)
    else:
        ctx.expect(not at.get("learning_results"), "learning results", at)
    d = same(at.get("peak_learning_results", {}), {"peaks": np.arange(4)} if e["peaks"] else {})
    ctx.expect(d is None, "peak learning results", d)
    if e["attributes"]:
        ctx.expect(at.get("extra") == "x" and at.get("ragged") is (e["ragged"] is not None), "attributes", at)
    ctx.expect((r["package"], r["package_version"]) == (e["package"] or ("", "")), "package", f"{r['package']} {r['package_version']}")
    d = same(plain(r["models"]), models)
    ctx.expect(d is None, "models", d)


PROP = Prop("C52", "an experiment with metadata beyond its title of a file of another version than the present one was read and compared", [Sub("legacy", files, check, quick=640, shards=8)])

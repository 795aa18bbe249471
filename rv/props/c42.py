"""C42: writing leaves the signal as it is and the file complete, whatever was there before."""

import gc
import importlib
import os
import pathlib
import warnings

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Reject, Sub
from ..core import Violation
from . import c41

U, I, F = ("|u1", "<u2", "<u4"), ("|i1", "<i2", "<i4"), ("<f4", "<f8")
# plugin -> extension, dtypes, numbers of (navigation, signal) dimensions
FORMATS = {
    "blockfile": ("blo", ("|u1",), [(1, 2), (2, 2)]),
    "digitalsurf": ("sur", ("<i2", "<i4", "<f4", "<f8"), [(0, 1), (1, 1), (0, 2), (1, 2), (2, 1)]),
    "emd": ("emd", U + I + F, [(0, 1), (0, 2), (1, 1), (1, 2), (2, 1), (2, 2)]),
    "hspy": ("hspy", U + I + F + ("<c8",), [(0, 1), (0, 2), (1, 1), (2, 2), (3, 1)]),
    "zspy": ("zspy", U + I + F + ("<c8",), [(0, 1), (0, 2), (1, 1), (2, 2), (3, 1)]),
    "image": ("png", ("|u1", "<u2"), [(0, 2)]),
    "mrcz": ("mrcz", ("|i1", "<i2", "<f4", "<f8", "<c8"), [(0, 2), (1, 2)]),
    "msa": ("msa", ("<f4", "<f8", "<i4", "<u2"), [(0, 1)]),
    "nexus": ("nxs", U + I + F, [(0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]),
    "numpy": ("npy", U + I + F + ("<c16",), [(0, 1), (0, 2), (1, 1), (2, 2)]),
    "pantarhei": ("prz", U + I + F, [(0, 1), (0, 2), (1, 1), (2, 1), (2, 2)]),
    "ripple": ("rpl", U + I + F, [(0, 1), (0, 2), (1, 1), (1, 2), (2, 1)]),
    "semper": ("unf", ("|i1", "<i2", "<f4", "<c8"), [(0, 2), (1, 2), (0, 1)]),
    "tiff": ("tif", U + I + F, [(0, 2), (1, 2)]),
    "tvips": ("tvips", U[:2] + I[:2] + F[:1], [(0, 2), (1, 2), (2, 2)]),
}
# refused by npy, and not supported by the others (the caller computes)
EAGER = ("digitalsurf", "numpy", "ripple", "semper")
WRITERS = {p: importlib.import_module("rsciio." + p).file_writer for p in FORMATS}

QUANTITY = ["", "Intensity (Counts)", "X-rays (Counts)"]


@st.composite
def metadata(draw):
    def some(d):
        return {k: draw(v) for k, v in d.items() if draw(st.booleans())}

    md = {
        "General": {"title": draw(gen.text()), "date": "2019-0%d-1%d" % (draw(st.integers(1, 9)), draw(st.integers(0, 9))), "time": "1%d:3%d:0%d" % tuple(draw(st.integers(0, 9)) for _ in range(3))}
        | some(dict(authors=st.sampled_from(["A", "A, B"]), notes=gen.text(), original_filename=st.just("x.dm3"), doi=gen.text())),
        "Signal": {"signal_type": draw(st.sampled_from(["", "EDS_TEM", "EELS", "EDS_SEM"]))} | some(dict(quantity=st.sampled_from(QUANTITY))),
    }
    f = gen.floats(0.01, 300.0)
    if draw(st.booleans()):
        tem = some(dict(beam_energy=f, beam_current=f, probe_area=f, camera_length=f, magnification=f, convergence_angle=f, acquisition_mode=st.just("STEM"), microscope=gen.text()))
        if draw(st.booleans()):
            tem["Detector"] = {"EDS": some(dict(live_time=f, real_time=f, energy_resolution_MnKa=f, azimuth_angle=f, elevation_angle=f, detector_type=st.just("SDD"))), "EELS": some(dict(collection_angle=f, dwell_time=f, exposure=f))}
        if draw(st.booleans()):
            tem["Stage"] = some(dict(x=f, y=f, z=f, tilt_alpha=f, tilt_beta=f))
        md["Acquisition_instrument"] = {draw(st.sampled_from(["TEM", "TEM", "SEM"])): tem}
    if draw(st.booleans()):
        md["Sample"] = {"elements": ["Al", "Zr"], "xray_lines": ["Al_Ka", "Zr_La"], "description": draw(gen.text()), "thickness": 12.5}
    if draw(st.booleans()):
        md["Signal"]["Noise_properties"] = {"variance": 3.5, "Variance_linear_model": {"gain_factor": 2.0, "gain_offset": 0.5, "correlation_factor": 1.0}}
    return md


@st.composite
def signal(draw, plugin, same=None):
    _, dtypes, dims = FORMATS[plugin]
    nav, sig = draw(st.sampled_from(dims))
    shape = tuple(draw(st.integers(2, 6)) for _ in range(nav + sig))
    if plugin == "blockfile":
        shape = shape[:nav] + shape[-1:] * 2
    return dict(
        dtype=draw(st.sampled_from(dtypes)),
        shape=shape,
        nav=nav,
        seed=draw(gen.seeds),
        units=[draw(st.sampled_from(["nm", "µm", "1 / nm", "eV", "s", ""])) for _ in shape],
        scales=[draw(gen.floats(0.01, 50.0)) for _ in shape],
        offsets=[draw(gen.floats(-50.0, 50.0)) for _ in shape],
        metadata=draw(metadata()),
        om=draw(st.sampled_from([{}, {"a": 1, "b": {"c": "x", "d": [1, 2, 3]}}, {"t": {"u": [1.5, 2.5], "v": (2, 3)}}])),
    )


@st.composite
def cases(draw):
    plugin = draw(st.sampled_from(sorted(FORMATS)))
    return dict(
        plugin=plugin,
        signal=draw(signal(plugin)),
        old=draw(st.none() | signal(plugin)),
        path=draw(st.sampled_from(["str", "path", "relative"])),
        lazy=plugin not in EAGER and draw(st.sampled_from([False, True, "single"])),
        layout=draw(st.sampled_from(["C", "F", "strided", "swapped", "read-only"])),
        name=draw(st.sampled_from(["a", "a b", "a.b", "ü", "img_001"])),
    )


def build(c, lazy=False, layout="C"):
    a = gen.make_array((c["dtype"], tuple(c["shape"]), "random", c["seed"]))
    if layout == "F":
        a = np.asfortranarray(a)
    elif layout == "strided":
        b = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
        b[tuple(slice(1, None, 2) for _ in a.shape)] = a
        a = b[tuple(slice(1, None, 2) for _ in a.shape)]
    elif layout == "swapped":
        a = a.astype(a.dtype.newbyteorder(">"))
    elif layout == "read-only":
        a = a.copy()
        a.flags.writeable = False
    if lazy:
        a = sigs.lazy_of(a, chunks=-1 if lazy == "single" else (1,) + a.shape[1:] if a.ndim > 1 else 2)
    names = ["t", "z", "y", "x"][-len(c["shape"]) :]
    axes = [
        sigs.axis(i, n, name=names[i], units=c["units"][i], scale=c["scales"][i], offset=c["offsets"][i], navigate=i < c["nav"])
        for i, n in enumerate(c["shape"])
    ]
    import copy

    return sigs.signal(a, axes, metadata=copy.deepcopy(c["metadata"]), original_metadata=copy.deepcopy(c["om"]))


def snapshot(s):
    d = sigs.freeze({k: v for k, v in s.items() if k != "data"})
    v = s["data"]
    if hasattr(v, "__dask_keys__"):
        return d, ("dask", v.name, v.chunks, str(v.dtype)), v.compute()
    return d, (v.shape, v.strides, str(v.dtype), v.flags.writeable), v.copy()


def unchanged(ctx, s, before, data, what):
    after = snapshot(s)
    diff = gen.deep_diff(after[0], before[0])
    ctx.expect(diff is None, "signal-changed", f"{what}: {diff}")
    ctx.expect(s["data"] is data, "data-replaced", what)
    ctx.expect(after[1] == before[1], "data-layout-changed", f"{what}: {before[1]} -> {after[1]}")
    ctx.expect(gen.arrays_equal(after[2], before[2]), "data-changed", f"{what}: {gen.short(before[2], 200)} -> {gen.short(after[2], 200)}")


def write(plugin, path, s):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if plugin in ("hspy", "zspy", "tvips", "blockfile"):
            WRITERS[plugin](path, s, show_progressbar=False)
        else:
            WRITERS[plugin](path, s)


def read(ctx, plugin, path):
    if plugin == "tvips":
        path = path[: -len(".tvips")] + "_000.tvips"
    r = ctx.sut(c41.read, plugin, path)
    for s in r:
        sigs.check_structure(ctx, s)
    return c41.freeze(r)


def check(c, ctx):
    p = c["plugin"]
    ext = FORMATS[p][0]
    name = f"{c['name']}.{ext}"
    ctx.label(p, c["layout"], f"lazy {c['lazy']}", c["path"])
    # the plainest writing is the reference
    os.mkdir(ctx.path("ref"))
    s = build(c["signal"])
    before, data = snapshot(s), s["data"]
    try:
        write(p, os.path.join(ctx.path("ref"), name), s)
    except Exception as e:
        ctx.label("refused")
        unchanged(ctx, s, before, data, f"{p} refusing with {type(e).__name__}")
        if os.environ.get("RV_DEBUG"):
            print(p, repr(e)[:200])
        raise Reject("refused")
    ctx.started = True
    unchanged(ctx, s, before, data, f"writing {p}")
    ref = read(ctx, p, os.path.join(ctx.path("ref"), name))

    where = ctx.path("d")
    os.mkdir(where)
    # files of others in the same folder
    for other in (f"b{name}", f"{name}.bak", "a.txt", f"{c['name']}_.{ext}"):
        with open(os.path.join(where, other), "wb") as f:
            f.write(b"not mine" * 3)
    keep = c41.snapshot(where)
    full = os.path.join(where, name)
    if c["old"] is not None:
        ctx.label("over older file")
        try:
            write(p, full, build(c["old"]))
        except Exception:
            ctx.label("older refused")
    s = build(c["signal"], c["lazy"], c["layout"])
    before, data = snapshot(s), s["data"]
    fds = c41.descriptors()
    cwd = os.getcwd()
    arg = full
    if c["path"] == "relative":
        os.chdir(where)
        arg = name
    elif c["path"] == "path":
        arg = pathlib.Path(full)
    try:
        ctx.sut(write, p, arg, s)
    finally:
        os.chdir(cwd)
    left = [x for x in c41.descriptors() - fds if x[1].startswith(where)]
    if left:
        gc.collect()
        left = [x for x in c41.descriptors() - fds if x[1].startswith(where)]
    ctx.expect(not left, "open-file", f"{p}: {left}")
    unchanged(ctx, s, before, data, f"writing {p} ({c['layout']}, lazy={c['lazy']})")
    after = c41.snapshot(where)
    changed = sorted(k for k in keep if after.get(k) != keep[k])
    ctx.expect(not changed, "other-files", f"{p}: {changed}")
    got = read(ctx, p, full)
    swapped = c["layout"] == "swapped"
    if swapped:
        # the byte order itself may be kept and be told by the headers
        ref, got = ([{k: s[k] for k in ("data", "axes", "metadata") if k in s} for s in r] for r in (ref, got))
    c41.compare(ctx, got, ref, "file", dtype=not swapped)
    # what was written stays when the signal is changed later
    if not c["lazy"] and s["data"].flags.writeable:
        s["data"][...] = 0
        s["metadata"]["General"]["title"] = "changed"
        later = [{k: v for k, v in r.items() if k in ref[0]} for r in read(ctx, p, full)]
        c41.compare(ctx, later, ref, "later", dtype=not swapped)
    ctx.nontrivial(c["old"] is not None or c["lazy"] or c["layout"] != "C" or c["path"] != "str")


PROP = Prop(
    "C42",
    "the signal is lazy or of another memory layout, or the file replaces an older one, or the path isn't an absolute str",
    [Sub("writing", cases, check, quick=600, shards=8)],
)

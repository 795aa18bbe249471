"""C04: blockfile (.blo)."""

import datetime

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

UNIT_NM = {"nm": 1.0, "µm": 1e3, "m": 1e9, "Å": 0.1}
UNIT_CM = {"cm": 1.0, "mm": 0.1, "m": 100.0, "µm": 1e-4}


@st.composite
def cases(draw):
    nav = draw(gen.shapes(0, 2, 1, 7))
    dp = draw(st.integers(2, 9))
    scaling = draw(st.sampled_from([None, None, None, "dtype", "minmax", "crop", "tuple"]))
    dt = draw(st.sampled_from(["u1"] * 4 + ["u2", "i2", "f4", "f8", "u4", "i1"]))
    if scaling == "dtype" and np.dtype(dt).kind == "f":
        dt = "u2"
    lo = draw(st.integers(-50, 200))
    header = None
    if draw(st.booleans()):
        header = dict(
            Note=draw(gen.text(max_size=30).filter(lambda s: s == s.strip("\x00"))) * draw(st.sampled_from([1, 1, 1, 1, 300, 4000])),
            Beam_energy=draw(st.integers(0, 2**32 - 1)),
            Camera_length=draw(st.integers(0, 2**32 - 1)),
            Scan_rotation=draw(st.integers(0, 65535)),
            DP_rotation=draw(st.integers(0, 65535)),
            Centering_N3=draw(gen.floats(-1e3, 1e3)),
            Distortion_N07=draw(gen.floats(-1e3, 1e3)),
            Acquisition_time=draw(st.integers(25570 * 86400, 60000 * 86400)) / 86400.0,
        )
        header["Note"] = header["Note"].encode("latin1", "ignore").decode("latin1")
    return dict(
        nav=nav,
        dp=dp,
        dt=dt,
        mode=draw(st.sampled_from(["random", "arange", "extremes", "constant"])),
        seed=draw(gen.seeds),
        scaling=(lo, lo + draw(st.integers(1, 2000))) if scaling == "tuple" else scaling,
        nav_scale=[draw(st.floats(1e-3, 1e4)) for _ in nav],
        nav_units=[draw(st.sampled_from(sorted(UNIT_NM))) for _ in nav],
        sdp=draw(st.floats(1.0, 65535.0)),
        sig_unit=draw(st.sampled_from(sorted(UNIT_CM))),
        navigator=draw(st.sampled_from(["navigator", "navigator", None, "array", "signal"])),
        lazy=draw(st.booleans()),
        endianness=draw(st.sampled_from(["<", "<", ">"])),
        header=header,
    )


def rescale(a, rng):
    """[lo, hi] -> [0, 255] with clipping."""
    lo, hi = float(rng[0]), float(rng[1])
    a = np.clip(a.astype("f8"), lo, hi)
    if hi == lo:
        return np.clip(a, 0, 255)
    return (a - lo) / (hi - lo) * 255.0


def check(case, ctx):
    from rsciio.blockfile import file_reader, file_writer

    shape = tuple(case["nav"]) + (case["dp"],) * 2
    data = gen.make_array((case["dt"], shape, case["mode"], case["seed"]))
    if np.dtype(case["dt"]).kind == "f":
        data = (np.nan_to_num(data, posinf=0, neginf=0) % (250 if case["scaling"] is None else 300)).astype(case["dt"])
    elif case["scaling"] is None and case["dt"] != "u1":
        data = (data.astype("i8") % 127).astype(case["dt"])
    nd = len(shape)
    axes = []
    for i, s in enumerate(case["nav"]):
        u = case["nav_units"][i]
        axes.append(sigs.axis(i, s, name="yx"[i], units=u, scale=case["nav_scale"][i] / UNIT_NM[u], navigate=True))
    for i in (nd - 2, nd - 1):
        axes.append(sigs.axis(i, case["dp"], name="d", units=case["sig_unit"], scale=100.0 / case["sdp"] / UNIT_CM[case["sig_unit"]]))
    om = {"blockfile_header": dict(case["header"])} if case["header"] else {}
    md = {"General": {"title": "t"}, "Signal": {"signal_type": ""}}
    if case["navigator"] == "signal":
        # the navigator of the signal, as HyperSpy passes it
        nav_img = gen.make_array(("u1", tuple(case["nav"]), "random", case["seed"] + 1))
        nsig = sigs.signal(sigs.lazy_of(nav_img) if case["seed"] % 2 else nav_img, [dict(a) for a in axes[: nd - 2]])
        md["_HyperSpy"] = {"_sig_navigator": {k: nsig[k] for k in ("data", "axes", "metadata", "original_metadata", "attributes")}}
    s = sigs.signal(sigs.lazy_of(data) if case["lazy"] else gen.relayout(data, case["seed"]), axes, metadata=md, original_metadata=om)
    kw = {}
    if case["navigator"] == "array":
        nav_img = gen.make_array(("u1", tuple(case["nav"]), "random", case["seed"] + 1))
        kw["navigator"] = nav_img
    elif case["navigator"] is None:
        kw["navigator"] = None
    ctx.label(f"nav{len(case['nav'])}", f"scaling:{case['scaling'] if isinstance(case['scaling'], (str, type(None))) else 'tuple'}", "end" + case["endianness"], "lazy" if case["lazy"] else "eager")
    if 1 in case["nav"]:
        ctx.label("unit-nav-dim")
    p = ctx.path("t.blo")
    ctx.sut(file_writer, p, s, intensity_scaling=case["scaling"], show_progressbar=False, endianness=case["endianness"], **kw)
    ctx.nontrivial(data.size > 8)

    # what the data must have become
    sc = case["scaling"]
    if sc is None:
        exp, tol = data.astype("u1"), 0
    else:
        if sc == "dtype":
            ii = np.iinfo(data.dtype)
            rng = (ii.min, ii.max)
        elif sc == "minmax":
            rng = (data.min(), data.max())
        elif sc == "crop":
            rng = (0, 255)
        else:
            rng = sc
        exp, tol = rescale(data, rng), 1.0 + 1e-6
    # squeezed dimensions
    keep = [i for i, n in enumerate(shape) if n > 1]
    # an image with no navigation dimension is stored as a 1 x 1 scan
    ny, nx = ((1, 1) + tuple(case["nav"]))[-2:]
    q = 100.0 / int(case["sdp"] * (1 + 1e-12))
    full = [
        dict(name="y", units="nm", navigate=True, scale=case["nav_scale"][0] if len(case["nav"]) == 2 else 1.0),
        dict(name="x", units="nm", navigate=True, scale=case["nav_scale"][-1] if case["nav"] else 1.0),
        dict(name="dy", units="cm", navigate=False, scale=q, _tol=(1.01 / case["sdp"], 0)),
        dict(name="dx", units="cm", navigate=False, scale=q, _tol=(1.01 / case["sdp"], 0)),
    ]
    eaxes = [dict(a, size=n, offset=0.0, _tol=a.get("_tol", (1e-9, 0))) for a, n in zip(full, (ny, nx, case["dp"], case["dp"])) if n > 1]
    for lazy in (False, True):
        kwr = {}
        r = ctx.sut(file_reader, p, lazy=lazy, endianness=case["endianness"], **kwr)
        ctx.expect(len(r) == 1, "count")
        r = r[0]
        got = r["data"]
        ctx.expect(hasattr(got, "__dask_keys__") == lazy, "lazy-type")
        sigs.check_structure(ctx, r)
        ctx.expect(got.dtype == np.dtype("u1"), "dtype", f"{got.dtype}")
        v = sigs.compute(got)
        e = exp.reshape([shape[i] for i in keep])
        ctx.expect(v.shape == e.shape, "shape", f"{v.shape} expected {e.shape}")
        if tol:
            d = np.abs(v.astype("f8") - e).max()
            ctx.expect(d <= tol, "rescaled", f"max deviation {d} from the linear map of {rng} on 0-255")
        else:
            ctx.expect(np.array_equal(v, e), "data", lambda: f"{gen.short(v)} expected {gen.short(e)}")
        sigs.check_axes(ctx, r["axes"], eaxes)
        h = r["original_metadata"]["blockfile_header"]
        ctx.expect(int(h["NX"]) == nx and int(h["NY"]) == ny and int(h["DP_SZ"]) == case["dp"], "header-dims", f"{h}")
        for k, val in (case["header"] or {}).items():
            if k == "Note" and len(val) > 200:
                # as much of it as there is room for
                full = open(p, "rb").read()[int(h["Data_offset_1"]) - 1] != 0
                ctx.expect(h[k] == val or (full and len(h[k]) > 200 and val.startswith(h[k])), "long note", f"{len(h[k])} characters of {len(val)}, room filled: {full}")
                continue
            ctx.expect(h[k] == val, "header-value", f"{k}: {h[k]!r} expected {val!r}")
        if case["header"]:
            g = r["metadata"]["General"]
            ctx.expect(g["notes"] == h["Note"], "notes", f"{g['notes']!r}")
            t = datetime.datetime.fromisoformat(g["date"] + "T" + g["time"])
            t0 = datetime.datetime(1899, 12, 30) + datetime.timedelta(days=case["header"]["Acquisition_time"])
            off = t.astimezone().utcoffset()
            ctx.expect(abs((t - off - t0).total_seconds()) < 0.01, "date-time", f"{t} vs {t0}")
            mp = r["mapping"]
            for k, path, f in (("Beam_energy", "beam_energy", 1e-3), ("Camera_length", "camera_length", 1e-4), ("Scan_rotation", "rotation", 1e-2)):
                dest, fn = mp["blockfile_header." + k]
                ctx.expect(dest == "Acquisition_instrument.TEM." + path and gen.close(fn(h[k]), case["header"][k] * f, 1e-9), "mapping", k)
    # the stored virtual bright field image
    o1 = int(h["Data_offset_1"])
    vbf = np.fromfile(p, dtype="u1", offset=o1, count=ny * nx).reshape(ny, nx)
    if case["navigator"] is None:
        n, t = np.zeros((ny, nx)), 0
    elif case["navigator"] in ("array", "signal"):
        n, t = nav_img.reshape(ny, nx).astype("f8"), 1.0
    else:
        n, t = data.astype("f8").mean(axis=(-2, -1)).reshape(ny, nx), 1.0 + 1e-3 * (np.dtype(case["dt"]).itemsize < 8)
    if sc is not None and not (case["navigator"] is None and rng[0] > rng[1]):
        n = rescale(n, rng)
        t = 1.01
    ctx.expect(np.abs(vbf.astype("f8") - n).max() <= t, "vbf", lambda: f"{vbf.tolist()} expected about {n.tolist()}")


@st.composite
def cut_cases(draw):
    nav = draw(gen.shapes(2, 2, 2, 6))
    dp = draw(st.integers(2, 6))
    n = nav[0] * nav[1]
    return dict(nav=nav, dp=dp, seed=draw(gen.seeds), frames=draw(st.integers(1, n - 1)), extra=draw(st.integers(0, 5 + dp * dp)))


def check_cut(case, ctx):
    """A file holding fewer frames than its header says is zero padded."""
    from rsciio.blockfile import file_reader, file_writer

    ny, nx = case["nav"]
    dp = case["dp"]
    data = gen.make_array(("u1", (ny, nx, dp, dp), "random", case["seed"]))
    axes = [sigs.axis(i, s, units="nm" if i < 2 else "cm", navigate=i < 2) for i, s in enumerate(data.shape)]
    p = ctx.path("t.blo")
    ctx.sut(file_writer, p, sigs.signal(data, axes), show_progressbar=False)
    h = ctx.sut(file_reader, p)[0]["original_metadata"]["blockfile_header"]
    with open(p, "r+b") as f:
        f.truncate(int(h["Data_offset_2"]) + case["frames"] * (6 + dp * dp) + case["extra"])
    ctx.nontrivial()
    got = ctx.sut(file_reader, p)[0]["data"]
    exp = data.reshape(-1, dp, dp).copy()
    exp[case["frames"] :] = 0
    sigs.check_data(ctx, got, exp.reshape(data.shape))


PROP = Prop(
    "C04",
    "Random scans (0-2 navigation dimensions including unit ones) of square patterns, all dtypes and "
    "intensity_scaling options, calibrations in convertible units, header values, navigator choices, byte orders, "
    "eager and dask data; written and read back eagerly and lazily. Non-trivial: more than 8 data values.",
    [Sub("roundtrip", cases, check, quick=1100, shards=7), Sub("truncated", cut_cases, check_cut, quick=120)],
)

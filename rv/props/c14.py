"""C14: TVIPS streams, written by rosettasciio or by an independent encoder."""

import datetime
import os
import struct
import time

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

UTC = datetime.timezone.utc
f32 = st.floats(min_value=float(np.float32(-1e6)), max_value=float(np.float32(1e6)), width=32, allow_subnormal=False)
stamp = st.datetimes(min_value=datetime.datetime(1970, 1, 2), max_value=datetime.datetime(2100, 1, 1))
TZ = ["UTC", "UTC", "EST5EDT", "Asia/Tokyo"]


def set_tz(name):
    os.environ["TZ"] = name
    time.tzset()


@st.composite
def scans(draw, frames):
    """None, or (scan_shape, start, winding, hysteresis) fitting in `frames`."""
    if draw(st.booleans()):
        return None
    nd = draw(st.sampled_from([1, 2, 2, 2, 3]))
    shape = []
    left = frames
    for _ in range(nd):
        n = draw(st.integers(1, max(1, min(left, 5))))
        shape.append(n)
        left //= n
    start = draw(st.integers(0, frames - int(np.prod(shape))))
    w = draw(st.sampled_from([None, "x", "y", 0, 1])) if nd > 1 else None
    return (tuple(shape), start, w, draw(st.integers(-3, 3)) if w is not None else 0)


def expected_indices(scan):
    shape, start, w, hyst = scan
    idx = np.arange(start, start + int(np.prod(shape))).reshape(shape)
    out = idx.copy()
    if w in ("x", 0) and w is not None:
        for r in range(0, shape[-2], 2):
            row = idx[..., r, :]
            n = shape[-1]
            for j in range(n):
                out[..., r, (j + hyst) % n] = row[..., n - 1 - j]
    elif w in ("y", 1):
        for q in range(0, shape[-1], 2):
            n = shape[-2]
            for j in range(n):
                out[..., (j + hyst) % n, q] = idx[..., n - 1 - j, q]
    return out


@st.composite
def cases(draw):
    nav = draw(gen.shapes(0, 3, 1, 5))
    frames = int(np.prod(nav)) if nav else 1
    kind = draw(st.sampled_from([("nm", 1, 1), ("µm", 1, 1000), ("1/nm", 2, 1), ("1/pm", 2, 1000), ("foo", 2, 1), ("", 2, 1)]))
    return dict(
        shape=nav + draw(gen.shapes(2, 2, 1, 9)),
        dtype=draw(st.sampled_from(["u1", "u2", "u2", "u4"])),
        order=draw(st.sampled_from("<<>")),
        seed=draw(gen.seeds),
        layout=draw(st.sampled_from(["C", "F", "lazy", "reversed", "strided"])),
        kind=kind,
        scale=draw(st.integers(1, 10**5)),
        offx=draw(st.integers(-1000, 1000)),
        offy=draw(st.integers(-1000, 1000)),
        navscale=draw(st.integers(1, 5000)),
        navunits=draw(st.sampled_from(["ms", "s", "nm", "foo"])),
        split=draw(st.one_of(st.none(), st.integers(0, 4), st.integers(1, 4))),
        extra=draw(st.sampled_from([0, 0, 4, 60])),
        when=draw(stamp).replace(microsecond=draw(st.sampled_from([0, 0, 250000, 999000]))),
        tz=draw(st.sampled_from(TZ)),
        date=draw(st.booleans()),
        ht=draw(st.integers(0, 10**6)),
        mag=draw(st.integers(0, 10**6)),
        stage=draw(st.tuples(*[f32] * 6)),
        scan=draw(scans(frames)),
        suffix=draw(st.booleans()),
        ext=draw(st.sampled_from(["tvips", "TVIPS"])),
        rechunk=draw(st.sampled_from(["auto", False, {0: 1}])),
        rewrite=draw(st.booleans()),
    )


def nums(r):
    return [(a["name"], float(a["scale"]), float(a["offset"]), a["units"], a["size"], a["navigate"]) for a in r["axes"]]


def expect_result(ctx, r, data, scan, pix, unit, offs, times, lazy, start=0):
    sigs.check_structure(ctx, r)
    ny, nx = data.shape[-2:]
    frames = data.reshape((-1, ny, nx))
    if scan is None:
        e = frames[start:]
        t = times[start:]
        ax = [dict(name="time", units="s", size=len(e), navigate=True, offset=t[0], _tol=(1e-12, 2e-3))]
        if len(t) > 1:
            ax[0]["scale"] = t[1] - t[0]
        else:
            ax[0]["scale"] = 1.0
    else:
        idx = expected_indices(scan)
        e = frames[idx]
        ax = [dict(name=n, units=u, scale=1.0, offset=0.0, size=s, navigate=True) for n, u, s in zip(["", "y", "x"][-idx.ndim :], ["", "nm", "nm"][-idx.ndim :], idx.shape)]
        if idx.ndim == 1:
            ax[0].pop("name")
    ax += [dict(name=n, scale=float(pix), offset=float(o), units=unit, size=s, navigate=False) for n, o, s in zip(["dy", "dx"], offs, (ny, nx))]
    sigs.check_data(ctx, r["data"], e, lazy=lazy, dtype="value")
    sigs.check_axes(ctx, r["axes"], ax)


def check(c, ctx):
    from rsciio.tvips import file_reader, file_writer

    shape = c["shape"]
    data = gen.make_array((c["dtype"], shape, "random", c["seed"])).astype(np.dtype(c["dtype"]).newbyteorder(c["order"]))
    given = gen.relayout(data, c["layout"])
    if c["layout"] == "lazy":
        given = sigs.lazy_of(data)
    nav = shape[:-2]
    unit, mode, factor = c["kind"]
    axes = [sigs.axis(i, s, name=f"n{i}", units=c["navunits"], scale=float(c["navscale"] + 7 * (len(nav) - 1 - i)), navigate=True) for i, s in enumerate(nav)]
    for i, (s, o) in enumerate(zip(shape[-2:], (c["offy"], c["offx"]))):
        axes.append(sigs.axis(len(nav) + i, s, name="yx"[i], units=unit, scale=float(c["scale"]), offset=float(o)))
    z, x, y, a, b, cur = c["stage"]
    md = {
        "General": {"title": "t"},
        "Signal": {"signal_type": ""},
        "Acquisition_instrument": {
            "TEM": {"beam_energy": c["ht"], "beam_current": cur, "Stage": {"x": x, "y": y, "z": z, "tilt_alpha": a, "tilt_beta": b}},
        },
    }
    if mode == 1:
        md["Acquisition_instrument"]["TEM"]["magnification"] = c["mag"]
    when = datetime.datetime(1970, 1, 1)
    if c["date"]:
        when = c["when"]
        md["General"].update(date=when.date().isoformat(), time=when.time().isoformat(), time_zone="UTC")
    nframes = int(np.prod(nav)) if nav else 1
    itemsize = 60 + c["extra"] + data[..., 0, 0].ravel()[0].itemsize * shape[-1] * shape[-2]
    # one frame at least goes into each file
    mx = None if c["split"] is None else 256 + itemsize * c["split"] + (c["seed"] % itemsize)
    p = ctx.path(("a_000." if c["suffix"] else "a.") + c["ext"])
    first = ctx.path("a_000." + c["ext"])
    ctx.label(f"nav{len(nav)}", c["layout"], c["dtype"], "split" if mx and nframes > c["split"] else "one-file", f"mode{mode}", "scan" if c["scan"] else "stack", c["tz"])
    ctx.nontrivial(nframes > 1 and data.size > 4)
    set_tz(c["tz"])
    try:
        sig = sigs.signal(given, axes, metadata=md)
        if c["rewrite"] and mx is None:  # replaces an older, larger file
            with open(first, "wb") as f:
                f.write(b"\xff" * (itemsize * (nframes + 3)))
        ctx.sut(file_writer, p, sig, max_file_size=mx, frame_header_extra_bytes=c["extra"], show_progressbar=False)
        if mx is not None:
            sizes = {n: os.path.getsize(os.path.join(os.path.dirname(first), n)) for n in os.listdir(os.path.dirname(first))}
            ctx.expect(max(sizes.values()) <= max(mx, 256 + itemsize), "max_file_size", f"{sizes}, at most {mx}")
        rs = []
        kw = {}
        if c["scan"]:
            s, start, w, h = c["scan"]
            kw = dict(scan_shape=s, scan_start_frame=start, winding_scan_axis=w, hysteresis=h)
        start = 0
        if not c["scan"] and nframes > 1 and c["seed"] % 3 == 0:
            start = c["seed"] % nframes
            kw = dict(scan_start_frame=start)
        for lazy in (False, True):
            rs.append(ctx.sut(file_reader, first, lazy=lazy, **kw, **({"rechunking": c["rechunk"]} if lazy else {})))
    finally:
        set_tz("UTC")
    inc = {"ms": 1, "s": 1000}.get(c["navunits"])
    inc = 1 if inc is None else inc * c["navscale"]
    t0 = (when.replace(tzinfo=UTC) - datetime.datetime(1970, 1, 1, tzinfo=UTC)).total_seconds()
    times = t0 + np.arange(nframes) * inc / 1000
    f = factor
    dunit = {1: "nm", 2: "1/nm"}[mode]
    for lazy, r in zip((False, True), rs):
        ctx.expect(len(r) == 1, "count")
        r = r[0]
        expect_result(ctx, r, data, c["scan"], c["scale"] * f, dunit, (c["offy"] * f, c["offx"] * f), times, lazy, start)
        g = r["metadata"]["General"]
        w0 = when.replace(microsecond=0)
        ctx.expect((g["date"], g["time"], g["time_zone"]) == (w0.date().isoformat(), w0.time().isoformat(), "UTC"), "date-time", f"{g} expected {w0}")
        tem = r["metadata"]["Acquisition_instrument"]["TEM"]
        ctx.expect(tem["beam_energy"] == c["ht"], "beam_energy", f"{tem}")
        if mode == 1:
            ctx.expect(tem["magnification"] == c["mag"], "magnification", f"{tem}")
        ctx.expect(np.float32(tem["beam_current"]) == np.float32(cur), "beam_current")
        for k, v in md["Acquisition_instrument"]["TEM"]["Stage"].items():
            ctx.expect(np.float32(tem["Stage"].get(k)) == np.float32(v), "stage", f"{k}: {tem['Stage']} expected {v}")
        ctx.expect((sigs.get(r["metadata"], "Signal.signal_type") == "diffraction") == (mode == 2), "signal_type")


# ------------------------------------------------------------ foreign streams


@st.composite
def foreign(draw):
    auto = draw(st.integers(0, 2)) == 0
    if auto:
        n = draw(st.integers(2, 4))
        rot = [0] * draw(st.integers(0, 3))
        v = 1
        firstrun = draw(st.integers(1, 3)) if rot else 1
        rot += [1] * firstrun
        while v < n * n:
            v = min(n * n, v + draw(st.sampled_from([1, 1, 1, 1, 2, 3])))
            rot += [v] * (draw(st.sampled_from([1, 1, 1, 2, 3])) if v < n * n else 1)
        rot += [0] * draw(st.integers(0, 3))
        frames = len(rot)
        scan = n
    else:
        frames = draw(st.integers(2, 20))
        rot = list(range(1, frames + 1))
        scan = draw(scans(frames))
    cuts = sorted(draw(st.lists(st.integers(1, frames - 1), max_size=3, unique=True)))
    return dict(
        auto=auto,
        rot=rot,
        scan=scan,
        cuts=cuts,
        shape=draw(gen.shapes(2, 2, 1, 8)),
        bits=draw(st.sampled_from([8, 16])),
        extra=draw(st.sampled_from([0, 4, 36])),
        header=draw(st.sampled_from([256, 256, 300])),
        mode=draw(st.sampled_from([1, 2])),
        pix=draw(st.integers(1, 10**6)),
        off=draw(st.tuples(st.integers(0, 100), st.integers(0, 100))),
        t0=draw(st.integers(10**8, 4 * 10**9)),
        ms=draw(st.integers(0, 999)),
        dt=draw(st.integers(1, 3000)),
        ht=draw(st.integers(0, 300000)),
        mag=draw(st.integers(0, 10**6)),
        stage=draw(st.tuples(*[f32] * 7)),
        seed=draw(gen.seeds),
        rechunk=draw(st.sampled_from(["auto", False, {0: 1}])),
    )


def check_foreign(c, ctx):
    from rsciio.tvips import file_reader

    ny, nx = c["shape"]
    n = len(c["rot"])
    data = gen.make_array((f"u{c['bits'] // 8}", (n, ny, nx), "random", c["seed"]))
    fb = 60 + c["extra"]
    head = struct.pack("<13I", c["header"], 2, nx, ny, c["bits"], *c["off"], 1, 1, c["pix"], c["ht"], c["mag"], fb)
    head = head.ljust(c["header"], b"T")
    x, y, z, a, b, cur, obj = c["stage"]
    times = []
    bounds = [0] + c["cuts"] + [n]
    for k, (lo, hi) in enumerate(zip(bounds[:-1], bounds[1:])):
        with open(ctx.path(f"rec_{k:03d}.tvips"), "wb") as f:
            if k == 0:
                f.write(head)
            for i in range(lo, hi):
                s, ms = divmod(c["t0"] * 1000 + c["ms"] + i * c["dt"], 1000)
                times.append(s + ms / 1000)
                h = struct.pack("<4IfIIfffffIff", i % 7, s, ms, 0, cur, 5, c["mode"], x, y, z, a, b, c["rot"][i], i % 10, obj)
                f.write(h.ljust(fb, b"\xab") + data[i].tobytes())
    ctx.label("auto" if c["auto"] else "scan" if c["scan"] else "stack", f"files{len(bounds) - 1}", f"u{c['bits']}", f"mode{c['mode']}")
    ctx.nontrivial(data.size > 4)
    kw = {}
    if c["auto"]:
        kw = dict(scan_shape="auto")
    elif c["scan"]:
        s, start, w, h = c["scan"]
        kw = dict(scan_shape=s, scan_start_frame=start, winding_scan_axis=w, hysteresis=h)
    unit = "1/nm" if c["mode"] == 2 else "nm"
    for lazy in (False, True):
        r = ctx.sut(file_reader, ctx.path("rec_000.tvips"), lazy=lazy, **kw, **({"rechunking": c["rechunk"]} if lazy else {}))
        r = r[0]
        if c["auto"]:
            m = c["scan"]
            runs = []  # (value, first frame, length)
            for i, v in enumerate(c["rot"]):
                if v == 0:
                    continue
                if runs and runs[-1][0] == v:
                    runs[-1][2] += 1
                else:
                    runs.append([v, i, 1])
            idx = []
            for q in range(1, m * m + 1):
                v, i, ln = [u for u in runs if u[0] <= q][-1]
                idx.append(i + min(q - v, ln - 1))
            e = data[np.array(idx).reshape(m, m)]
            sigs.check_structure(ctx, r)
            sigs.check_data(ctx, r["data"], e, lazy=lazy, dtype="value")
            sigs.check_axes(ctx, r["axes"], [dict(name=k, size=s, units=u, navigate=i < 2) for i, (k, s, u) in enumerate(zip(["y", "x", "dy", "dx"], e.shape, ["nm", "nm", unit, unit]))])
        else:
            expect_result(ctx, r, data, c["scan"], c["pix"], unit, c["off"][::-1], np.array(times), lazy)
        tem = r["metadata"]["Acquisition_instrument"]["TEM"]
        ctx.expect((tem["beam_energy"], tem["magnification"]) == (c["ht"], c["mag"]), "header-values", f"{tem}")
        S = tem["Stage"]
        got = [S["x"], S["y"], S["z"], S["tilt_alpha"], S["tilt_beta"], tem["beam_current"], tem["defocus"]]
        ctx.expect([np.float32(v) for v in got] == [np.float32(v) for v in c["stage"]], "frame-values", f"{got} expected {c['stage']}")
        w = datetime.datetime.fromtimestamp(int(times[0] // 1), UTC)
        g = r["metadata"]["General"]
        ctx.expect((g["date"], g["time"]) == (w.date().isoformat(), w.time().isoformat()), "date-time", f"{g}")
        h = r["original_metadata"]["tvips_header"]
        ctx.expect(h["dimx"] == nx and h["bitsperpixel"] == c["bits"] and h["frameheaderbytes"] == fb, "tvips_header", f"{h}")


def _write(ctx, n, **kw):
    from rsciio.tvips import file_writer

    data = np.arange(n * 4, dtype="u2").reshape(n, 2, 2)
    ax = [sigs.axis(0, n, units="s", navigate=True), sigs.axis(1, 2), sigs.axis(2, 2)]
    ctx.sut(file_writer, ctx.path("a_000.tvips"), sigs.signal(data, ax), show_progressbar=False, **kw)
    return data


def probe_version1(ctx):
    from rsciio.tvips import file_reader

    d = _write(ctx, 3, version=1)
    r = ctx.sut(file_reader, ctx.path("a_000.tvips"))
    sigs.check_data(ctx, r[0]["data"], d)


def probe_stale(ctx):
    from rsciio.tvips import file_reader

    _write(ctx, 4, max_file_size=256 + 68)
    d = _write(ctx, 2)
    r = ctx.sut(file_reader, ctx.path("a_000.tvips"))
    sigs.check_data(ctx, r[0]["data"], d)


PROP = Prop(
    "C14",
    "Random unsigned image stacks with 0-3 navigation dimensions (memory layouts, dask, byte orders), pixel sizes and "
    "offsets that the integer header can hold, frame intervals, dates in several local time zones, stage values, "
    "splitting over several files, frame header padding, replacing an older file; and streams from an independent "
    "encoder (8/16 bit, several files, header sizes, rotator values with repeats and gaps). Read eagerly and lazily as "
    "stack, with scan shapes, start frames, winding and hysteresis, or with automatic scan shape. Non-trivial: more "
    "than one frame and 4 pixels.",
    [
        Sub("roundtrip", cases, check, quick=500, shards=4),
        Sub("foreign", foreign, check_foreign, quick=500, shards=4),
    ],
    probes={"K-C14-1": probe_version1, "K-C14-2": probe_stale},
)

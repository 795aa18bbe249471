"""C23: Quantum Detectors (Merlin) mib files by an independent encoder."""

import datetime
import os
import pathlib

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

DT = {"U08": ">u1", "U16": ">u2", "U32": ">u4"}
HDR = ["Chip ID", "Gain", "Gap Fill Mode", "Software Version"]


@st.composite
def files(draw):
    nx = draw(st.integers(1, 5))
    rows = draw(st.integers(1, 4))
    lost = draw(st.sampled_from([0, 0, 0, 1, 2, 7]))
    n = max(1, nx * rows - lost)
    dt = draw(st.sampled_from([1000, 1000000, 333333]))
    return dict(
        n=n,
        nx=nx,
        rows=rows,
        shape=draw(gen.shapes(2, 2, 2, 9)),
        kind=draw(st.sampled_from(sorted(DT))),
        quad=draw(st.booleans()),
        seed=draw(gen.seeds),
        partial=draw(st.sampled_from([0, 0, 1, 300])),
        when=draw(st.datetimes(min_value=datetime.datetime(2001, 1, 1), max_value=datetime.datetime(2060, 1, 1))),
        nano=draw(st.integers(0, 999)),
        dt=dt,
        flyback=draw(st.sampled_from([2, 3, 50])),
        exposure=draw(st.lists(st.integers(1, 10**10), min_size=n, max_size=n)),
    )


def frames(c):
    return gen.make_array((DT[c["kind"]], (c["n"], *c["shape"]), "random", c["seed"]))


def times(c):
    t = np.datetime64(c["when"], "ns") + np.timedelta64(c["nano"], "ns")
    out = []
    for i in range(c["n"]):
        out.append(str(t) + "Z")
        t = t + np.timedelta64(c["dt"] * (c["flyback"] if (i + 1) % c["nx"] == 0 else 1), "ns")
    return out


def encode(c):
    size = 768 if c["quad"] else 384
    out = b""
    for i, (a, t, e) in enumerate(zip(frames(c), times(c), c["exposure"])):
        h = f"MQ1,{i + 1:06d},{size:05d},{'04' if c['quad'] else '01'},{c['shape'][1]:04d},{c['shape'][0]:04d},{c['kind']},"
        h += f"   {'2x2' if c['quad'] else '1x1'},{'0F' if c['quad'] else '01'},{t[:10]} {t[11:26]},{e / 1e9:.6f},0,0,0,"
        h += "4.000000E+1,5.110000E+2," + "0.000000E+0," * 6
        h += ("3RX," + "068,511," + "000," * 25) * (4 if c["quad"] else 1)
        h += f"MQ1A,{t},{e}ns,{ {'U08': 6, 'U16': 12, 'U32': 24}[c['kind']]},"
        assert len(h) <= size
        out += h.encode().ljust(size, b"\0") + a.tobytes()
    return out + b"MQ1,"[: c["partial"]].ljust(min(c["partial"], len(out) // c["n"] - 1), b"\0")


def shape_of(c, nav, first, last):
    """Navigation shape in array order and first frame."""
    n = c["n"]
    a, b, _ = slice(first, last).indices(n)
    k = b - a
    if nav is None:
        shape = (k,)
    elif int(np.prod(nav)) > n:
        # interrupted acquisition: completed lines
        shape = (k // nav[0], nav[0]) if a == 0 and len(nav) == 2 and k >= nav[0] else (k,)
    elif k < int(np.prod(nav)):
        shape = (k,)
    else:
        shape = nav[::-1]
    return shape, a


@st.composite
def slices(draw, n):
    if draw(st.integers(0, 2)):
        return None, None
    a = draw(st.integers(0, n - 1))
    b = draw(st.integers(a + 1, n))
    if draw(st.booleans()):
        a -= n
    first = draw(st.sampled_from([a, a, None]))
    last = draw(st.sampled_from([b, None, b - n if b < n else n + 3]))
    return first, last


@st.composite
def navs(draw, c):
    return draw(st.sampled_from([None, None, (c["nx"], c["rows"]), (c["nx"], c["rows"]), (c["n"],), (c["rows"], c["nx"]), (c["nx"],), (2, 2), (c["nx"], 30)]))


@st.composite
def cases(draw):
    c = draw(files())
    c["slice"] = draw(slices(c["n"]))
    c["nav"] = draw(navs(c))
    c["hdr"] = draw(st.sampled_from([None, 1, 1, "line"]))
    c["name"] = draw(st.sampled_from(["a.mib", "a b.mib", "a.mib.d/x.mib"]))
    c["as_path"] = draw(st.booleans())
    return c


def check(c, ctx):
    from rsciio.quantumdetector import file_reader

    path = ctx.path(c["name"])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(encode(c))
    hdr = {}
    if c["hdr"] is not None:
        hdr = {k: f"  {k} value {i}" for i, k in enumerate(HDR)}
        hdr["Frames in Acquisition (Number)"] = str(c["nx"] * c["rows"])
        hdr["Frames per Trigger (Number)"] = str(c["nx"] if c["hdr"] == "line" else 1)
        with open(path[:-4] + ".hdr", "w") as f:
            f.write("HDR,\t\n" + "".join(f"{k}:\t{v}\n" for k, v in hdr.items()) + "End\t     ")
    first, last = c["slice"]
    nav = c["nav"]
    total = c["nx"] * c["rows"] if hdr else c["n"]
    if nav is None:
        line = c["nx"]
        if c["hdr"] != "line" and c["n"] <= line:
            line = 1  # the lines can't be told apart
        nav = (line, total // line)
        ctx.label("guessed" if c["hdr"] != "line" else "hdr")
    shape, start = shape_of(c, nav, first, last)
    n = int(np.prod(shape))
    data = frames(c)[start : start + n].reshape(*shape, *c["shape"])
    data = data.reshape([s for s in shape if s > 1] + list(c["shape"]))[..., ::-1, :]
    ctx.label(c["kind"], "quad" if c["quad"] else "single", "interrupted" if c["n"] < total else "complete", f"nav{len(shape)}")
    ctx.nontrivial(len(data.shape) > 3 or c["slice"] != (None, None))
    for lazy in (False, True):
        r = ctx.sut(file_reader, pathlib.Path(path) if c["as_path"] else path, lazy=lazy, navigation_shape=c["nav"], first_frame=first, last_frame=last)
        ctx.expect(len(r) == 1, "count", f"{len(r)} signals")
        r = r[0]
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], data, lazy=lazy)
        sigs.check_axes(ctx, r["axes"], [dict(size=s, navigate=i < data.ndim - 2, scale=1.0, offset=0.0) for i, s in enumerate(data.shape)])
        t = times(c)[0]
        m = r["metadata"]
        ctx.expect(m["General"]["date"] == t[:10] and m["General"]["time"] == t[11:-1] and m["General"]["time_zone"] == "UTC", "metadata", f"{m['General']}, expected {t}")
        ctx.expect(m["General"]["original_filename"] == os.path.basename(path), "metadata", f"{m['General']}")
        dwell = sigs.get(m, "Acquisition_instrument.dwell_time")
        ctx.expect(abs(dwell - c["exposure"][0] * 1e-9) <= 1e-9 * dwell, "metadata", f"dwell time {dwell}, expected {c['exposure'][0]} ns")
        ctx.expect(m["Signal"]["signal_type"] == "electron_diffraction", "metadata", "signal type")
        om = r["original_metadata"]
        ctx.expect(om.get("hdr_file", {}) == hdr, "original-metadata", f"hdr file {om.get('hdr_file')}, expected {hdr}")


@st.composite
def load_cases(draw):
    c = draw(files())
    c["slice"] = draw(slices(c["n"]))
    c["nav"] = draw(navs(c))
    c["buffer"] = draw(st.booleans())
    c["mmap"] = c["buffer"] or draw(st.booleans())
    c["lazy"] = not c["buffer"] and draw(st.booleans())
    c["info"] = draw(st.integers(0, 5)) == 0
    c["prop"] = draw(st.integers(0, 3)) == 0
    c["max_index"] = draw(st.sampled_from([None, -1, 1, 2, 10**6]))
    return c


def check_load(c, ctx):
    from rsciio.quantumdetector import load_mib_data, parse_exposures, parse_timestamps

    try:
        from rsciio.quantumdetector._api import MIBProperties
    except ImportError:
        MIBProperties = None  # it's not public

    raw = encode(c)
    if c["buffer"]:
        src = raw
    else:
        src = ctx.path("a.mib")
        with open(src, "wb") as f:
            f.write(raw)
    first, last = c["slice"]
    shape, start = shape_of(c, c["nav"], first, last)
    n = int(np.prod(shape))
    data = frames(c)[start : start + n].reshape(*shape, *c["shape"])
    kw = dict(navigation_shape=c["nav"], first_frame=first, last_frame=last, lazy=c["lazy"], print_info=c["info"])
    if c["prop"] and MIBProperties:
        kw["mib_prop"] = MIBProperties()
        ctx.sut(kw["mib_prop"].parse_file, src)
    ctx.label("buffer" if c["buffer"] else "file", "mmap" if c["mmap"] else "array", "quad" if c["quad"] else "single")
    ctx.nontrivial(n > 1)
    if not c["mmap"]:
        got = ctx.sut(load_mib_data, src, return_mmap=False, **kw)
        sigs.check_data(ctx, got, data.reshape([s for s in shape if s > 1] + list(c["shape"])), lazy=c["lazy"])
        return
    got, headers = ctx.sut(load_mib_data, src, return_headers=True, **kw)
    sigs.check_data(ctx, np.asarray(got), data)
    ctx.expect(headers.shape == shape, "headers", f"shape of the headers {headers.shape}, expected {shape}")
    mk = {} if c["max_index"] is None else dict(max_index=c["max_index"])
    k = n if c["max_index"] in (None, -1) else min(n, c["max_index"])
    flat = headers.ravel()
    t = ctx.sut(parse_timestamps, flat, **mk)
    ctx.expect(list(t) == times(c)[start : start + k], "timestamps", f"{t}, expected {times(c)[start : start + k]} (max_index={c['max_index']})")
    e = ctx.sut(parse_exposures, flat, **mk)
    ctx.expect(len(e) == k and np.allclose(e, np.array(c["exposure"][start : start + k]) / 1e6, rtol=1e-12), "exposures", f"{e} for {c['exposure'][start : start + k]} ns (max_index={c['max_index']})")
    # a header alone
    one = bytes(flat[-1])
    t = ctx.sut(parse_timestamps, one)
    ctx.expect(list(t) == times(c)[start + n - 1 : start + n], "timestamps", f"{t} of one header")
    e = ctx.sut(parse_exposures, one)
    ctx.expect(len(e) == 1 and gen.close(e[0], c["exposure"][start + n - 1] / 1e6), "exposures", f"{e} of one header")


PROP = Prop(
    "C23",
    "a scan of two dimensions or part of the frames; several frames",
    [Sub("reader", cases, check, quick=900, shards=4), Sub("load", load_cases, check_load, quick=700, shards=4)],
    assumptions=["frames are taken at a constant rate with a longer time between the lines", "detectors have at least two rows and columns", "at least one frame is selected"],
)

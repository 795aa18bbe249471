"""C34: Balzers/Pfeiffer Quadstar SAC (scan analog) and SBC (scan bargraph) files."""

import datetime
import pathlib
import struct

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

TEXT = st.text("abXYZ 09./-éµ°", max_size=12).filter(lambda s: s.strip() == s)
NAME = st.text("abcXYZ- 09é", min_size=1, max_size=12).map(str.strip).filter(bool)


def f32(lo, hi):
    return st.floats(lo, hi, width=32)


@st.composite
def trace(draw):
    return dict(
        kind=draw(st.sampled_from([0x11, 0x11, 0x11, 0x12, 0])),
        x=(draw(TEXT), draw(TEXT)),
        y=(draw(TEXT), draw(TEXT)),
        comment=draw(TEXT),
        first=draw(f32(0, 300)),
        width=draw(st.integers(1, 12)),
        per=draw(st.integers(1, 9)),
        zoom=(draw(f32(0, 300)), draw(f32(0, 300))),
        fsr=draw(st.integers(-14, 2)),
        gap=draw(st.integers(0, 9)),
    )


@st.composite
def cases(draw):
    sbc = draw(st.booleans())
    n = draw(st.sampled_from([1, 1, 2, 3, 7, 30]))
    return dict(
        sbc=sbc,
        n=n,
        traces=[draw(trace()) for _ in range(draw(st.integers(1, 4)))],
        masses=draw(st.integers(1, 40)),
        first=draw(f32(0, 300)),
        step=draw(f32(0.125, 4)),
        times=draw(st.lists(st.tuples(st.integers(0, 5000), st.integers(0, 9999)), min_size=n, max_size=n)),
        start=draw(st.integers(0, 2**32 - 1)),
        start_ms=draw(st.integers(0, 9999)),
        overflow=draw(st.booleans()),
        pad=draw(st.integers(0, 60)),
        user=draw(TEXT),
        version=(draw(st.integers(0, 255)), draw(st.integers(0, 255))),
        date=draw(st.none() | st.datetimes(datetime.datetime(1901, 1, 1), datetime.datetime(2155, 12, 31))),
        uniform=draw(st.sampled_from([None, True, False])),
        seed=draw(gen.seeds),
        name=draw(NAME),
        upper=draw(st.booleans()),
        pathlib=draw(st.booleans()),
    )


def latin(s, n):
    return s.encode("latin-1").ljust(n, b"\0")


def header(c, n_traces, step):
    d = c["date"]
    b = struct.pack("<hiBB", 1, 42, *c["version"])
    b += bytes([d.second, d.minute, d.hour, d.day, d.month, d.year - 1900]) if d else bytes([1, 2, 3, 0, 0, 0])
    b += latin(c["user"], 86) + struct.pack("<ihi", c["n"], n_traces, step)
    return b


def build_sac(c):
    rng = np.random.default_rng(c["seed"])
    tr = c["traces"]
    pos = 200 + 9 * len(tr)
    infos, at = [], []
    for t in tr:
        pos += t["gap"]
        at.append(pos)
        i = struct.pack("<H", 2) + latin(t["y"][0], 13) + latin(t["y"][1], 13) + b"\x07" + latin(t["x"][0], 13)
        i += latin(t["x"][1], 13) + latin(t["comment"], 59) + struct.pack("<II", 5, 6)
        i += struct.pack("<fHBff", t["first"], t["width"], t["per"], *t["zoom"])
        assert len(i) == 137
        infos.append(i)
        pos += len(i)
    # a cycle: [blocks of other traces] [time stamp] [block of the first scan] ...
    size = [6 + 4 * t["width"] * t["per"] + t["gap"] for t in tr]
    first = next((k for k, t in enumerate(tr) if t["kind"] == 0x11), None)
    data_at, p = [], pos
    for k in range(len(tr)):
        p += 6 * (k == first)
        data_at.append(p)
        p += size[k]
    step = p - pos
    buf = bytearray(p + step * (c["n"] - 1))
    buf[: 0x6E] = header(c, len(tr), step)
    struct.pack_into("<IH", buf, 0xC2, c["start"], c["start_ms"])
    for k, t in enumerate(tr):
        struct.pack_into("<Bii", buf, 200 + 9 * k, t["kind"], at[k], data_at[k])
        buf[at[k] : at[k] + 137] = infos[k]
    values = []
    for k, t in enumerate(tr):
        fsr = t["fsr"] + rng.integers(0, 3, c["n"])
        v = (rng.uniform(-0.1, 0.999, (c["n"], t["width"] * t["per"])) * 10.0 ** fsr[:, None]).astype("<f4")
        over = (rng.random(v.shape) < 0.1) & c["overflow"]
        v[over] = (3 * 10.0 ** fsr[:, None] * np.ones(v.shape)).astype("<f4")[over]
        for i in range(c["n"]):
            struct.pack_into("<ih", buf, data_at[k] + i * step, 77, fsr[i])
            b = v[i].tobytes()
            o = data_at[k] + i * step + 6
            buf[o : o + len(b)] = b
        v[over] = np.nan
        values.append(v)
    if first is not None:
        for i, (s, ms) in enumerate(c["times"]):
            struct.pack_into("<IH", buf, data_at[first] - 6 + i * step, s, ms)
    stamps = [c["start"] + s + (c["start_ms"] + ms) * 1e-4 for s, ms in c["times"]]
    return bytes(buf), values, np.array(stamps)


def build_sbc(c):
    rng = np.random.default_rng(c["seed"])
    m = (c["first"] + c["step"] * np.arange(c["masses"])).astype("<f4")
    v = (rng.normal(0, 1, (c["n"], c["masses"])) * 10.0 ** rng.integers(-13, -3)).astype("<f4")
    buf = bytearray(0x100 + c["pad"])
    buf[: 0x6E] = header(c, 1, 0)
    struct.pack_into("<H", buf, 0xCB, c["masses"] - 1)
    for i, (s, ms) in enumerate(c["times"]):
        buf += struct.pack("<IIBI", s, ms, 0xFB, 1)
        buf += np.stack([m, v[i]], axis=1).astype("<f4").tobytes()
    return bytes(buf), m, v, np.array([float(s) for s, _ in c["times"]])


def check_times(c, ctx, axes, stamps, eps):
    if c["n"] == 1:
        ctx.expect(len(axes) == 1, "single cycle", f"{axes}")
        return
    ax = axes[0]
    ctx.expect((ax["name"], ax["units"], ax["navigate"]) == ("Time", "s", True), "time axis", f"{ax}")
    rel = stamps - stamps[0]
    if c["uniform"] is False:
        ctx.expect("scale" not in ax and np.allclose(ax["axis"], rel, rtol=0, atol=eps), "times", f"{ax}: {rel}")
    else:
        s = rel[-1] / (c["n"] - 1)
        ctx.expect(ax["offset"] == 0 and "axis" not in ax, "time axis", f"{ax}")
        if s > eps:
            ctx.expect(abs(ax["scale"] - s) <= eps, "time step", f"{ax}: {s}")
        else:
            ctx.expect(ax["scale"] > 0, "time step", f"{ax}: {s}")


def check_header(c, ctx, r, p, n_traces):
    g = r["metadata"]["General"]
    d = c["date"]
    ctx.expect(g["original_filename"] == p.name, "name", f"{g}")
    got = (g.get("date"), g.get("time"))
    ctx.expect(got == ((f"{d:%Y-%m-%d}" if d.year >= 1000 else None, f"{d:%H:%M:%S}") if d else (None, None)), "date", f"{g}: {d}")
    ctx.expect(r["metadata"]["Signal"]["signal_type"] == "MS", "signal type", f"{r['metadata']}")
    h = r["original_metadata"]["general_header"]
    want = dict(username=c["user"], n_timesteps=c["n"], n_traces=n_traces, version_major=c["version"][0], version_minor=c["version"][1], software_id=42)
    ctx.expect(all(h[k] == v for k, v in want.items()), "header", f"{h}: {want}")


def check(c, ctx):
    from rsciio.quadstar import file_reader

    ext = "sbc" if c["sbc"] else "sac"
    p = pathlib.Path(ctx.path(c["name"] + "." + (ext.upper() if c["upper"] else ext)))
    kw = {} if c["uniform"] is None else {"use_uniform_signal_axis": c["uniform"]}
    f = p if c["pathlib"] else str(p)
    if c["sbc"]:
        buf, m, v, stamps = build_sbc(c)
        p.write_bytes(buf)
        ctx.nontrivial(c["n"] > 1 and c["masses"] > 1)
        ctx.label("sbc", "series" if c["n"] > 1 else "single")
        (r,) = ctx.sut(file_reader, f, **kw)
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], v if c["n"] > 1 else v[0])
        ax = r["axes"][-1]
        ctx.expect((ax["name"], ax["units"], ax["navigate"]) == ("Mass-to-charge ratio", "m/z", False), "mass axis", f"{ax}")
        eps = 1e-5 * (abs(m).max() + 1)
        ctx.expect(abs(ax["offset"] - m[0]) < eps and (len(m) == 1 or abs(ax["offset"] + ax["scale"] * (len(m) - 1) - m[-1]) < eps), "mass axis", f"{ax}: {m}")
        om = r["original_metadata"]
        ctx.expect(om["masses"] == m.tolist() and om["timestamps"] == stamps.tolist(), "recorded values", f"{gen.short(om)}")
        check_times(c, ctx, r["axes"], stamps, 1e-9)
        check_header(c, ctx, r, p, 1)
        return
    buf, values, stamps = build_sac(c)
    p.write_bytes(buf)
    use = [k for k, t in enumerate(c["traces"]) if t["kind"] == 0x11]
    ctx.label("sac", f"{len(use)} of {len(c['traces'])} traces" if len(use) < 3 else "many traces")
    ctx.nontrivial(c["n"] > 1 and len(use) > 0)
    if not use:
        ctx.started = True
        try:
            r = file_reader(f, **kw)
        except ValueError:
            return
        ctx.expect(False, "no scans", f"{gen.short(r)}")
    rs = ctx.sut(file_reader, f, **kw)
    ctx.expect(len(rs) == len(use), "number of traces", f"{len(rs)} instead of {len(use)}")
    for r, k in zip(rs, use):
        t = c["traces"][k]
        sigs.check_structure(ctx, r)
        want = values[k] if c["n"] > 1 else values[k][0]
        ctx.expect(r["data"].shape == want.shape and r["data"].dtype == np.float32 and np.array_equal(r["data"], want, equal_nan=True), "data", lambda: f"trace {k}: {gen.short(r['data'])} instead of {gen.short(want)}")
        ax = r["axes"][-1]
        ctx.expect((ax["name"], ax["units"], ax["navigate"]) == (t["x"][0] or "Mass-to-charge ratio", t["x"][1] or "m/z", False), "mass axis", f"{ax}: {t}")
        ctx.expect(gen.close(ax["offset"], t["first"]) and gen.close(ax["scale"], 1 / t["per"]), "mass axis", f"{ax}: {t}")
        check_times(c, ctx, r["axes"], stamps, 1e-5)
        om = r["original_metadata"]
        ctx.expect(np.allclose(om["timestamps"], stamps, rtol=0, atol=1e-5), "timestamps", f"{om['timestamps']}: {stamps}")
        check_header(c, ctx, r, p, len(c["traces"]))
        q = f"{t['y'][0]} ({t['y'][1]})" if t["y"][0] else "Intensity"
        ctx.expect(r["metadata"]["Signal"]["quantity"] == q, "quantity", f"{r['metadata']}: {q}")
        ctx.expect(r["metadata"]["General"].get("notes", "") == t["comment"], "notes", f"{r['metadata']}: {t['comment']}")
        i = om["trace_info"]
        want = dict(y_title=t["y"][0], y_unit=t["y"][1], x_title=t["x"][0], x_unit=t["x"][1], comment=t["comment"], first_mass=t["first"], scan_width=t["width"], values_per_mass=t["per"], zoom_start=t["zoom"][0], zoom_end=t["zoom"][1])
        ctx.expect(all(i[a] == b for a, b in want.items()), "trace info", f"{i}: {want}")


PROP = Prop(
    "C34",
    "the file has a series of cycles, of at least one scan (sac) or two masses (sbc)",
    [Sub("files", cases, check, quick=3000, shards=4)],
    assumptions=["the time stamp of a cycle is before the data of its first scan analog trace"],
)

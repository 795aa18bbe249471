"""C26: Hamamatsu img files (streak camera images)."""

import datetime
import pathlib
import struct

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

MODES = {1: "live", 2: "acquire", 3: "photon_counting", 4: "analog_integration"}
NAME = st.text("abcXYZ- 09é", min_size=1, max_size=12).map(str.strip).filter(bool)
TEXT = st.text("ab Z09,.=[]#-µé/:", max_size=12)
PLAIN = st.text("abZ09.-+ ", min_size=1, max_size=8).map(str.strip).filter(bool)


@st.composite
def cases(draw):
    axis = st.sampled_from(["table", "table", "nonuniform", "px"])
    x, y = draw(axis), draw(axis)
    w, h = draw(st.integers(2, 12)), draw(st.integers(2, 12))
    return dict(
        w=w,
        h=h,
        bits=draw(st.sampled_from(["<u1", "<u2", "<u4"])),
        seed=draw(gen.seeds),
        x=x,
        y=y,
        reverse=draw(st.booleans()) and x != "px",
        x0=draw(st.floats(0, 2000, width=32)),
        dx=draw(st.floats(0.015625, 16, width=32)),
        dy=draw(st.floats(0.0078125, 64, width=32)),
        xunit=draw(st.sampled_from(["nm", "eV"])),
        yunit=draw(st.sampled_from(["ns", "us", "ps", "ms"])),
        offsets=draw(st.tuples(*[st.integers(-5, 1000)] * 2)),
        timestamp=draw(st.floats(0, 1e9)),
        date=draw(st.datetimes(datetime.datetime(1900, 1, 1), datetime.datetime(2100, 1, 1))),
        dsep=draw(st.sampled_from([".", "/"])),
        fraction=draw(st.booleans()),
        frames=draw(st.integers(1, 10000)),
        exposure=draw(st.integers(1, 1000)),
        eunit=draw(st.sampled_from(["ms", "s"])),
        binning=draw(st.tuples(*[st.sampled_from([1, 2, 4])] * 2)),
        mode=draw(st.integers(1, 4)),
        flags=draw(st.lists(st.booleans(), min_size=4, max_size=4)),
        gain=draw(st.integers(0, 63)),
        device=draw(TEXT),
        trange=draw(st.none() | st.tuples(st.integers(1, 500), st.sampled_from(["ns", "us", "ms"]))),
        wavelength=draw(st.integers(0, 2000)),
        grating=draw(st.none() | st.integers(50, 2400)),
        blaze=draw(st.integers(0, 1000)),
        slit=draw(st.none() | st.integers(0, 500)),
        label=draw(st.sampled_from([("Intensity", "Count"), ("Intensity", "mV")])),
        extra=draw(st.dictionaries(st.sampled_from(["Foo", "A b.", "Prop_X", "x1"]), st.tuples(st.booleans(), TEXT, PLAIN), max_size=3)),
        quoted_last=draw(st.booleans()),
        comment=draw(TEXT),
        newline=draw(st.sampled_from(["", "\r\n"])),
        gap=draw(st.integers(0, 5)),
        uniform=draw(st.sampled_from([None, False, True])),
        name=draw(NAME),
        pathlib=draw(st.booleans()),
    )


def table(kind, start, step, n, rng):
    if kind == "table":
        return (start + step * np.arange(n)).astype("<f4")
    return (start + step * np.cumsum(rng.uniform(0.5, 1.5, n))).astype("<f4")


def build(c):
    rng = np.random.default_rng(c["seed"])
    data = rng.integers(0, 256 ** int(c["bits"][-1]), (c["h"], c["w"])).astype(c["bits"])
    tx = table(c["x"], c["x0"], c["dx"], c["w"], rng)
    if c["reverse"]:
        tx = np.ascontiguousarray(tx[::-1])
    ty = table(c["y"], 0, c["dy"], c["h"], rng)
    d = c["date"]
    time = f"{d:%H:%M:%S}" + (f".{d.microsecond // 1000:03d}" if c["fraction"] else "")
    b = ["-1" if f else "0" for f in c["flags"]]
    q = lambda s: (s, True)
    p = lambda s: (s, False)
    date = c["dsep"].join([f"{d.day:02d}", f"{d.month:02d}", f"{d.year:04d}"])
    sections = {
        "Application": {"Enconding": p("UTF-8"), "Date": q(date), "Time": q(time), "Software": q("HPD-TA"), "Application": p("2")},
        "Acquisition": {
            "NrExposure": p(str(c["frames"])),
            "NrTrigger": p("0"),
            "ExposureTime": p(f"{c['exposure']} {c['eunit']}"),
            "AcqMode": p(str(c["mode"])),
            "ShadingCorr": p(b[0]),
            "BacksubCorr": p(b[1]),
            "CurveCorr": p(b[2]),
            "DefectCorrection": p(b[3]),
            "areSource": q("0,0,672,512"),
            "pntBinning": q("%d,%d" % c["binning"]),
            "ZAxisLabel": p(c["label"][0]),
            "ZAxisUnit": p(c["label"][1]),
        },
        "Streak camera": {"UseDevice": p("-1"), "DeviceName": q(c["device"]), "MCP Gain": q(str(c["gain"])), "Trig. Mode": q("Cont")},
        "Spectrograph": {"DeviceName": q("Chromex 250IS"), "Wavelength": q(str(c["wavelength"])), "Blaze": q(str(c["blaze"])), "Ruling": q("0" if c["grating"] is None else str(c["grating"])), "Grating": q("2" if c["grating"] is None else f"{c['grating']} g/mm")},
        "Camera": {k: q(v[1]) if v[0] else p(v[2]) for k, v in c["extra"].items()},
    }
    if not c["extra"]:
        sections["Camera"] = {"Type": p("23")}
    if c["quoted_last"]:
        sections["Camera"]["last"] = q("")
    if c["trange"]:
        sections["Streak camera"]["Time Range"] = q("%d %s" % c["trange"])
    if c["slit"] is not None:
        sections["Spectrograph"]["Side Ent. Slitw."] = q(str(c["slit"]))
    scaling = {}
    # addresses have a fixed width
    n = c["w"] * c["h"] * int(c["bits"][-1])

    def comment(ax, ay):
        scaling.update(
            {
                "ScalingXType": p("1" if c["x"] == "px" else "2"),
                "ScalingXScale": p("1"),
                "ScalingXUnit": q(c["xunit"]),
                "ScalingXScalingFile": q("#%07d,%04d" % (ax, c["w"]) if c["x"] != "px" else "Focus mode"),
                "ScalingYType": p("1" if c["y"] == "px" else "2"),
                "ScalingYScale": p("1"),
                "ScalingYUnit": q(c["yunit"]),
                "ScalingYScalingFile": q("#%07d,%04d" % (ay, c["h"]) if c["y"] != "px" else "Focus mode"),
            }
        )
        all = {**sections, "Scaling": scaling, "Comment": {"UserComment": q(c["comment"])}}
        s = c["newline"].join(f"[{k}]," + ",".join(f'{a}="{v}"' if quoted else f"{a}={v}" for a, (v, quoted) in e.items()) for k, e in all.items())
        return s.encode("utf-8"), {k: {a: v for a, (v, _) in e.items()} for k, e in all.items()}

    size = len(comment(0, 0)[0])
    ax = 64 + size + n + c["gap"]
    ay = ax + tx.nbytes + c["gap"]
    text, parsed = comment(ax, ay)
    assert len(text) == size
    kind = {"<u1": 0, "<u2": 2, "<u4": 3}[c["bits"]]
    head = b"IM" + struct.pack("<6hi2hd4s30s", size, c["w"], c["h"], *c["offsets"], kind, 1, 0, 0, c["timestamp"], b"", b"")
    assert len(head) == 64, len(head)
    raw = head + text + data.tobytes() + bytes(c["gap"]) + tx.tobytes() + bytes(c["gap"]) + ty.tobytes()
    return raw, data, tx, ty, parsed, time


def check(c, ctx):
    from rsciio.hamamatsu import file_reader

    raw, data, tx, ty, parsed, time = build(c)
    f = pathlib.Path(ctx.path(c["name"] + ".img"))
    f.write_bytes(raw)
    kw = {} if c["uniform"] is None else {"use_uniform_signal_axes": c["uniform"]}
    (r,) = ctx.sut(file_reader, f if c["pathlib"] else str(f), **kw)
    ctx.nontrivial(c["x"] != "px" or c["y"] != "px")
    ctx.label(f"x {c['x']}", f"y {c['y']}", "reversed" if c["reverse"] else "ascending", c["bits"])
    sigs.check_structure(ctx, r)
    want = data[:, ::-1] if c["reverse"] else data
    ctx.expect(r["data"].shape == want.shape and np.array_equal(r["data"], want.astype(np.int64)), "data", lambda: f"{gen.short(r['data'])} instead of {gen.short(want)}")
    for i, (ax, kind, t, n, name, px, unit) in enumerate(
        zip(r["axes"], (c["y"], c["x"]), (ty, tx[::-1] if c["reverse"] else tx), data.shape, ("Time", "Wavelength"), ("Vertical CCD Position", "Uncalibrated X axis"), (c["yunit"].replace("us", "µs"), c["xunit"]))
    ):
        ctx.expect(ax["index_in_array"] == i and ax["navigate"] is False, "axis", f"{ax}")
        if kind == "px":
            ctx.expect((ax["name"], ax["units"], ax["scale"], ax["offset"], ax["size"]) == (px, "px", 1, 0, n), "uncalibrated axis", f"{ax}")
            continue
        ctx.expect(ax["name"] == name and ax["units"] == unit, "axis", f"{ax}: {name} {unit}")
        if c["uniform"]:
            j = np.arange(n) - (n - 1) / 2
            v = t.astype(float)
            scale = (j * v).sum() / (j * j).sum()
            offset = v.mean() - scale * (n - 1) / 2
            eps = 1e-5 * (abs(v).max() + 1)
            ctx.expect(ax["size"] == n and abs(ax["scale"] - scale) <= eps and abs(ax["offset"] - offset) <= eps, "uniform axis", f"{ax}: {offset} + {scale} n")
        else:
            ctx.expect(np.array_equal(ax["axis"], t), "axis values", lambda: f"{ax}: {t}")
    om = r["original_metadata"]
    ctx.expect(om["Comment"] == parsed, "comment", lambda: gen.deep_diff(om["Comment"], parsed))
    ctx.expect((om["image_width_px"], om["image_height_lines"], om["offset_x"], om["offset_y"], om["timestamp"], om["character_im"]) == (c["w"], c["h"], *c["offsets"], c["timestamp"], "IM"), "header", lambda: f"{om}")
    m = r["metadata"]
    d = c["date"]
    ctx.expect(m["General"] == {"title": c["name"], "original_filename": f.name, "date": d.date().isoformat(), "time": time.split(".")[0]}, "general", lambda: f"{m['General']}: {d}")
    u = {"Count": "Counts"}.get(c["label"][1], c["label"][1])
    ctx.expect(m["Signal"]["quantity"] == f"{c['label'][0]} ({u})", "quantity", f"{m['Signal']}")
    det = m["Acquisition_instrument"]["Detector"]
    want = dict(
        frames=c["frames"],
        binning=c["binning"],
        processing=dict(zip(["shading_correction", "background_correction", "curvature_correction", "defect_correction"], c["flags"])),
        detector_type="StreakCamera",
        model=c["device"],
        mcp_gain=c["gain"],
        acquisition_mode=MODES[c["mode"]],
    )
    if c["trange"]:
        want.update(time_range=c["trange"][0], time_range_units=c["trange"][1].replace("us", "µs"))
    got = dict(det)
    t = got.pop("integration_time")
    ctx.expect(got == want, "detector", lambda: gen.deep_diff(got, want))
    ctx.expect(gen.close(t, c["frames"] * c["exposure"] / (1000 if c["eunit"] == "ms" else 1)), "integration time", f"{t}")
    want = dict(model="Chromex 250IS", central_wavelength=c["wavelength"])
    if c["grating"] is not None:
        want["Grating"] = dict(blazing_wavelength=c["blaze"], groove_density=c["grating"])
    if c["slit"] is not None:
        want["entrance_slit_width"] = c["slit"]
    got = m["Acquisition_instrument"]["Spectrometer"]
    ctx.expect(got == want, "spectrometer", lambda: gen.deep_diff(got, want))


PROP = Prop(
    "C26",
    "at least one of the two axes is calibrated by a table of the file",
    [Sub("img", cases, check, quick=1600, shards=4)],
    assumptions=["images of at least 2 x 2 pixels, comments without quotation marks inside values, 32 bit counts returned as int64"],
)

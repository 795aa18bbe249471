"""C33: logs of in-situ holders: Protochips csv, DENS heater logs, Impulse csv."""

import datetime
import pathlib

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

UNITS = {"temperature": ["Degrees C", "Kelvin"], "pressure": ["Torr", "mbar"], "current": ["Amps", "mA"], "voltage": ["Volts"], "resistance": ["Ohms", "kOhms"]}
WORD = st.text("abcXYZ019_.", min_size=1, max_size=8)
NAME = st.text("abcXYZ- 09.", min_size=1, max_size=12).map(str.strip).filter(lambda s: s.strip(".") and s[0] != ".")
DATES = st.datetimes(datetime.datetime(1970, 1, 1), datetime.datetime(2068, 12, 31))


def steps(draw, n, lo=1, hi=1000):
    """Times of n samples, increasing: uniform or not."""
    if draw(st.booleans()):
        d = draw(st.integers(lo, hi))
        return [d] * (n - 1)
    return [draw(st.integers(lo, hi)) for _ in range(n - 1)]


# ---------------------------------------------------------------- Protochips


@st.composite
def protochips(draw):
    q = draw(
        st.sampled_from(
            [
                ["Channel A Temperature"],
                ["Holder Temperature", "Holder Pressure", "Tank1 Pressure", "Tank2 Pressure", "Vacuum Tank Pressure"],
                ["Channel A Current", "Channel A Voltage", "Channel A Resistance", "Channel B Current", "Channel B Voltage", "Channel B Resistance"],
                ["Channel A Temperature", "Channel B Current", "Channel B Voltage", "Channel B Resistance"],
                ["Pressure"],
            ]
        )
    )
    n = draw(st.integers(5, 20))
    note = draw(
        st.sampled_from(
            [
                st.just(""),
                st.sampled_from(["", "", "note", "a # b", "#1 start"]),
                st.sampled_from(["", "12", "3"]),
                st.sampled_from(["", "1.5"]),
                st.text("abc #1=.:\\", max_size=6).map(str.strip),
                st.sampled_from(["", "True"]),
                st.sampled_from(["7", "8"]),
                st.sampled_from(["Calibration file: E:\\x.cal", ""]),
            ]
        )
    )
    # the notes of data lines mustn't look like another line of the header
    return dict(
        quantities=q,
        sep=draw(st.sampled_from([",", ", "])),
        start=draw(st.integers(0, 1000)),
        steps=steps(draw, n),
        seed=draw(gen.seeds),
        kinds=draw(st.lists(st.sampled_from(["int", "float", "nan", "zero", "exp"]), min_size=len(q), max_size=len(q))),
        notes=[draw(note) for _ in range(n)],
        date=draw(DATES).replace(microsecond=draw(st.integers(0, 999)) * 1000),
        time_units=draw(st.sampled_from(["Milliseconds", "Milliseconds", "Milliseconds", "Seconds"])),
        units={k: draw(st.sampled_from(v)) for k, v in UNITS.items()},
        calibration=draw(st.none() | st.tuples(st.sampled_from(["E:\\", "C:\\a\\b c\\", "/home/x/", ""]), WORD)),
        user=draw(st.none() | st.sampled_from(["user", "A B", "x1"])),
        header_value=draw(st.booleans()),
        name=draw(NAME),
        pathlib=draw(st.booleans()),
    )


def column(kind, n, rng):
    if kind == "int":
        return [repr(int(v)) for v in rng.integers(-50, 1500, n)]
    if kind == "zero":
        return ["0"] * n
    if kind == "exp":
        return ["%.5E" % v for v in rng.normal(size=n) * 10.0 ** rng.integers(-12, 9)]
    v = rng.normal(0, 100, n)
    s = [repr(round(float(x), 6)) for x in v]
    if kind == "nan":
        s = ["NaN" if k else x for k, x in zip(rng.integers(0, 2, n), s)]
    return s


def check_protochips(c, ctx):
    from rsciio.protochips import file_reader

    rng = np.random.default_rng(c["seed"])
    n = len(c["notes"])
    cols = [column(k, n, rng) for k in c["kinds"]]
    times = np.cumsum([c["start"]] + c["steps"])
    d = c["date"]
    head = [f"Date (yyyy.mm.dd) = {d:%Y.%m.%d}", f"Time (hh:mm:ss.ms) = {d:%H:%M:%S}.{d.microsecond // 1000:03d}", f"Time units = {c['time_units']}"]
    head += [f"{k.capitalize()} units = {v}" for k, v in c["units"].items()]
    if c["calibration"]:
        head.insert(0, f"Calibration file = {''.join(c['calibration'])}")
    if c["user"]:
        head.append(f"User agreeing to terms = {c['user']}")
    sep = c["sep"]
    lines = [sep.join(["Time", "Notes"] + c["quantities"])]
    first = [col[0] for col in cols]
    lines += [sep.join(["0", h] + first) for h in head]
    lines += [sep.join([str(t), note] + [col[i] for col in cols]) for i, (t, note) in enumerate(zip(times, c["notes"]))]
    p = pathlib.Path(ctx.path(c["name"] + ".csv"))
    p.write_text("\n".join(lines) + "\n")
    rs = ctx.sut(file_reader, p if c["pathlib"] else str(p))
    ctx.nontrivial(True)
    ctx.label("user" if c["user"] else "no user", "notes" if any(c["notes"]) else "no notes", c["time_units"])
    ctx.expect(len(rs) == len(c["quantities"]), "number of signals", f"{len(rs)}")
    all_notes = c["notes"]
    if c["user"] is None and all(len(r["data"]) == n - 1 for r in rs):
        # K-C33-1: the first sample is lost
        n, times, cols, all_notes = n - 1, times[1:], [col[1:] for col in cols], all_notes[1:]
    notes = np.array(all_notes)
    for r, q, col in zip(rs, c["quantities"], cols):
        sigs.check_structure(ctx, r)
        unit = c["units"][q.split()[-1].lower()]
        want = np.array([float(v) for v in col])
        ctx.expect(np.array_equal(np.asarray(r["data"], float), want, equal_nan=True), "data", lambda: f"{q}: {r['data']} instead of {want}")
        (ax,) = r["axes"]
        ctx.expect(ax["name"] == "Time" and ax["units"] == "s" and ax["offset"] == 0 and ax["size"] == n and ax["navigate"] is False, "axis", f"{ax}")
        f = 1e-3 if c["time_units"] == "Milliseconds" else 1
        lo, hi = min(c["steps"]) * f, max(c["steps"]) * f
        ctx.expect(lo * (1 - 1e-9) <= ax["scale"] <= hi * (1 + 1e-9), "scale", f"{ax['scale']} not in {lo}..{hi}")
        g = r["metadata"]["General"]
        ctx.expect(g["title"] == f"{q} ({unit})" and g["original_filename"] == p.name, "title", f"{g}")
        ctx.expect(g["date"] == f"{d:%Y-%m-%d}" and datetime.time.fromisoformat(g["time"]) == d.time(), "date", f"{g}: {d}")
        ctx.expect(r["metadata"]["Signal"]["quantity"] == f"{q.split()[-1]} ({unit})", "quantity", f"{r['metadata']}")
        om = r["original_metadata"]["Protochips_header"]
        ctx.expect(om.get("User") == c["user"] and om[f"{q}_units"] == unit and om["Time units"] == c["time_units"], "header", lambda: f"{om}")
        ctx.expect(np.array_equal(om["Time axis"]["value"], times), "times", lambda: f"{om['Time axis']} instead of {times}")
        if c["calibration"]:
            ctx.expect(om["Calibration file path"] == "".join(c["calibration"]), "calibration", lambda: f"{om}")
        o = np.asarray(om["Original notes"])
        i = np.flatnonzero(notes != "")
        ok = o.shape == (2, len(i)) and [float(v) for v in o[0]] == [float(t) for t in times[i]] and [str(v).strip() for v in o[1]] == list(notes[i])
        ctx.expect(ok, "notes", lambda: f"{o} instead of {times[i]} {notes[i]}")
        m = sigs.mapped(r)
        if c["user"]:
            ctx.expect(sigs.get(m, "General.authors") == c["user"], "authors", lambda: f"{m}")
        if c["calibration"]:
            ctx.expect(sigs.get(m, "General.notes") == f"Calibration file name: {c['calibration'][1]}", "mapped notes", lambda: f"{m}")


# ---------------------------------------------------------------- DENS


@st.composite
def dens(draw):
    n = draw(st.integers(2, 30))
    # also logs of several days, at least one sample a day
    widest = draw(st.sampled_from([10, 100, 10000, 864000, 8639999]))
    return dict(
        date=draw(DATES),
        const=draw(st.lists(st.floats(-1e3, 1e3).map(lambda v: round(v, 4)), min_size=4, max_size=4)),
        start=draw(st.integers(0, 86400 * 100 - 1) | st.integers(86390 * 100, 86400 * 100 - 1)),
        steps=steps(draw, n, max(1, widest // 2), widest) if draw(st.booleans()) else steps(draw, n, 1, widest),
        form=draw(st.sampled_from(["clock", "clock", "seconds"])),
        digits=draw(st.integers(1, 6)),
        seed=draw(gen.seeds),
        scale=draw(st.sampled_from([1, 1, 1e-3, 1e4])),
        blank=draw(st.integers(0, 3)),
        last=draw(st.sampled_from(["", "\tnorm", "\tnorm"])),
        damage=draw(st.sampled_from([None] * 8 + ["version", "header", "const", "empty", "blank"])),
        name=draw(NAME),
        pathlib=draw(st.booleans()),
    )


def check_dens(c, ctx):
    from rsciio.dens import file_reader

    rng = np.random.default_rng(c["seed"])
    n = len(c["steps"]) + 1
    digits = max(c["digits"], 2)
    t = np.cumsum([c["start"]] + c["steps"])  # 1/100 s
    temp = [round(float(v), 3) for v in rng.normal(300, 100, n) * c["scale"]]
    d = c["date"]

    def clock(v):
        if c["form"] == "seconds":
            return repr(float(v) / 100)
        v = int(v) % (86400 * 100)
        s = datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=v // 100, microseconds=v % 100 * 10000)
        return s.strftime("%H:%M:%S.%f")[: 9 + digits]

    h = f"{d:%d/%m/'%y %H:%M}\tDigiheater 3.{2 if c['damage'] == 'version' else 1}\n"
    h += "\t".join(f"{k} = {v}" for k, v in zip(["R0", "a", "b", "c"][: 3 if c["damage"] == "const" else 4], c["const"])) + "\n"
    h += "Tsample = 330 [ms]  \n"
    h += "sample\ttime\tTset[C]\tTmeas[C]\tRheat[ohm]\tVheat[V]\tIheat[mA]\tPheat [mW]\tc" + ("x" if c["damage"] == "header" else "") + "\n"
    rows = "".join("\t".join([str(i + 1), clock(v), "23.0", repr(x), *("%.6f" % y for y in rng.normal(size=4)), "278.222"]) + c["last"] + "\n" for i, (v, x) in enumerate(zip(t, temp)))
    p = pathlib.Path(ctx.path(c["name"] + ".dens"))
    text = "\n" * c["blank"] + h + rows
    if c["damage"] == "empty":
        text = ""
    if c["damage"] == "blank":
        text = "\n" * c["blank"]
    p.write_text(text)
    ctx.label("damaged" if c["damage"] else "whole", c["form"])
    if c["damage"]:
        ctx.started = True
        try:
            file_reader(str(p))
        except Exception:
            return
        ctx.expect(False, "invalid file", f"{c['damage']}: read all the same")
    (r,) = ctx.sut(file_reader, p if c["pathlib"] else str(p))
    ctx.nontrivial(True)
    ctx.label(f"midnights{min(t[-1] // 8640000, 2)}" if c["form"] == "clock" else "seconds")
    sigs.check_structure(ctx, r)
    ctx.expect(np.array_equal(r["data"], temp), "data", lambda: f"{r['data']} instead of {temp}")
    i = np.arange(n)
    tt = t / 100
    scale = ((i - i.mean()) * (tt - tt.mean())).sum() / ((i - i.mean()) ** 2).sum()
    offset = tt.mean() - scale * i.mean()
    (ax,) = r["axes"]
    ctx.expect(ax["name"] == "Time" and ax["units"] == "s" and ax["size"] == n and ax["navigate"] is False, "axis", f"{ax}")
    eps = 1e-9 * abs(tt).max() + 1e-9
    ctx.expect(abs(ax["scale"] - scale) <= eps and abs(ax["offset"] - offset) <= eps, "times", f"{ax}: {offset} + {scale} n")
    g = r["metadata"]["General"]
    ctx.expect(g["date"] == f"{d:%Y-%m-%d}" and g["time"] == f"{d:%H:%M}:00" and g["original_filename"] == p.name, "date", f"{g}: {d}")
    ctx.expect(r["metadata"]["Signal"]["quantity"] == "Temperature (Celsius)", "quantity", f"{r['metadata']}")
    om = r["original_metadata"]["DENS_header"]
    ctx.expect([om[k] for k in ("R0", "a", "b", "c")] == c["const"], "constants", f"{om}")


# ---------------------------------------------------------------- Impulse


COLUMNS = {
    "Temperature Measured": "",
    "Temperature Measured (degC)": "degC",
    "Temperature Measured (°C)": "°C",
    "MixValve": "",
    "Pin Measured": "",
    "Pin Measured (mbar)": "mbar",
    "Pout Measured": "",
    "Fnr (ml/min)": "ml/min",
    "% Gas1 Measured": "",
    "% Gas2 Measured": "",
    "Channel#1": "",
    "Channel#2": "",
    "Channel#2 (A)": "A",
    "Power - set": "",
    "V1+V2 (V)": "V",
    "Temperature Measured degC": "",
}


@st.composite
def impulse(draw):
    q = draw(st.lists(st.sampled_from(sorted(COLUMNS)), min_size=1, max_size=6, unique=True))
    n = draw(st.integers(4, 20))
    value = st.text("abc XYZ019'(),:;.-#", max_size=12).map(str.strip)
    live = st.builds("{}: {}".format, st.just("13:46:46"), value).map(str.strip)
    return dict(
        quantities=q,
        kind=draw(st.sampled_from(["Synchronized data", "Heat raw", "Gas raw"])),
        start=draw(st.integers(0, 10000)),
        steps=steps(draw, n),
        seed=draw(gen.seeds),
        kinds=draw(st.lists(st.sampled_from(["int", "float", "zero", "exp", "nan"]), min_size=len(q), max_size=len(q))),
        valves=draw(st.lists(st.tuples(*[st.integers(-2, 5)] * 3), min_size=n, max_size=n)),
        valve_sep=draw(st.sampled_from(["; ", ";"])),
        metadata=draw(st.sampled_from([True, True, True, False])),
        date=draw(DATES),
        values=draw(st.dictionaries(st.sampled_from(["Sample", "Description", "Calibration value", "Gas1", "MassSpec channel 1"]), value | value.filter(lambda s: s[-1:] != ",").map(lambda s: f'"{s}"'), max_size=4)),
        notes=draw(st.lists(live, max_size=4)),
        stem=draw(NAME | st.sampled_from(["a_b", "Exp_1_x"])),
        folder=draw(st.sampled_from(["", "", "a_b", "raw"])),
        pathlib=draw(st.booleans()),
    )


def check_impulse(c, ctx):
    from rsciio.impulse import file_reader

    rng = np.random.default_rng(c["seed"])
    n = len(c["steps"]) + 1
    ms = np.cumsum([c["start"]] + c["steps"])
    cols, wants = [], []
    for q, k in zip(c["quantities"], c["kinds"]):
        if q == "MixValve":
            cols.append([c["valve_sep"].join(map(str, v)) for v in c["valves"]])
            wants.append(np.array([(a + 2) * 100 + (b + 2) * 10 + d + 2 for a, b, d in c["valves"]]))
        else:
            cols.append(column(k, n, rng))
            wants.append(np.array([float(v) for v in cols[-1]]))
    d = pathlib.Path(ctx.path(c["folder"] or "."))
    d.mkdir(exist_ok=True)
    stamp = [(c["date"] + datetime.timedelta(milliseconds=int(m))).strftime("%H:%M:%S.%f")[:-3] for m in ms]
    lines = [",".join(["TimeStamp", "Experiment time"] + c["quantities"])]
    lines += [",".join([stamp[i], "%.3f" % (ms[i] / 1000)] + [col[i] for col in cols]) for i in range(n)]
    p = d / f"{c['stem']}_{c['kind']}.csv"
    p.write_text("\n".join(lines) + "\n", encoding="utf-8")
    values = {"Experiment date": f"{c['date']:%d-%m-%Y}", "Experiment time": f"{c['date']:%H:%M:%S}", **c["values"]}
    if c["metadata"]:
        rows = [f"{k}, {v}" for k, v in values.items()]
        rows += ["Live notes, " + (c["notes"] or [""])[0]] + c["notes"][1:]
        (d / f"{c['stem']}_Metadata.log").write_text("\n".join(rows) + "\n", encoding="utf-8")
    rs = ctx.sut(file_reader, p if c["pathlib"] else str(p))
    ctx.nontrivial(True)
    ctx.label("metadata" if c["metadata"] else "no metadata", "valve" if "MixValve" in c["quantities"] else "no valve")
    ctx.expect(len(rs) == len(c["quantities"]), "number of signals", f"{len(rs)}")
    for r, q, want in zip(rs, c["quantities"], wants):
        sigs.check_structure(ctx, r)
        ctx.expect(np.array_equal(np.asarray(r["data"], float), want, equal_nan=True), "data", lambda: f"{q}: {r['data']} instead of {want}")
        (ax,) = r["axes"]
        ctx.expect(ax["name"] == "Time" and ax["units"] == "Seconds" and ax["offset"] == 0 and ax["size"] == n and ax["navigate"] is False, "axis", f"{ax}")
        lo, hi = min(c["steps"]) / 1000, max(c["steps"]) / 1000
        ctx.expect(lo - 1e-9 <= ax["scale"] <= hi + 1e-9, "scale", f"{ax['scale']} not in {lo}..{hi}")
        g = r["metadata"]["General"]
        ctx.expect(g["title"] == q and g["original_filename"] == p.name, "title", f"{g}")
        ctx.expect(r["metadata"]["Signal"]["quantity"] == COLUMNS[q], "units", f"{q}: {r['metadata']}")
        om = r["original_metadata"]["Impulse_header"]
        if c["metadata"]:
            ctx.expect(g["date"] == values["Experiment date"] and g["time"] == values["Experiment time"], "date", f"{g}")
            for k, v in values.items():
                ctx.expect(om[k.replace(" ", "_")] == v, "metadata", f"{k}: {om[k.replace(' ', '_')]!r} instead of {v!r}")
            ctx.expect(om["Notes"] == (c["notes"] or [""]), "notes", f"{om['Notes']} instead of {c['notes']}")


def first_sample_lost(ctx):
    """K-C33-1: a log without user lost its first sample."""
    from rsciio.protochips import file_reader

    lines = ["Time,Notes,Channel A Temperature", "0,Date (yyyy.mm.dd) = 2014.12.15,25", "0,Time (hh:mm:ss.ms) = 19:07:04.165,25", "0,Time units = Milliseconds,25", "0,Temperature units = Degrees C,25"]
    lines += [f"{10 * i},,{i}" for i in range(6)]
    p = pathlib.Path(ctx.path("log.csv"))
    p.write_text("\n".join(lines) + "\n")
    (r,) = file_reader(str(p))
    ctx.expect(np.array_equal(r["data"], range(6)), "data", f"{r['data']} instead of 0 to 5")


PROP = Prop(
    "C33",
    "every log has at least 2 (DENS) or 4 samples of generated values; damaged DENS files count as trivial",
    [
        Sub("protochips", protochips, check_protochips, quick=900, shards=3),
        Sub("dens", dens, check_dens, quick=900, shards=2, guard=True),
        Sub("impulse", impulse, check_impulse, quick=900, shards=3),
    ],
    probes={"K-C33-1": first_sample_lost},
    assumptions=["Protochips and Impulse csv without quoting, their scale being an average over an unspecified part of the steps"],
)

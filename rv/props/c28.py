"""C28: Horiba Jobin Yvon LabSpec xml: spectra, line scans and maps."""

import datetime
import math
import pathlib
from xml.sax.saxutils import escape

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

NAME = st.text("abcXYZ- 09é", min_size=1, max_size=12).map(str.strip).filter(bool)
TEXT = st.text("abXYZ 09.-<&µ°", min_size=1, max_size=10).filter(lambda s: s.strip() == s)
NUMBER = st.integers(-2000, 5000).map(str) | st.floats(-1e4, 1e4).map(lambda v: repr(round(v, 5)))
POSITIVE = st.integers(1, 5000).map(str) | st.floats(1e-3, 1e4).map(lambda v: repr(round(v, 5)))

# entries of the experimental setup: name -> (kind, path in metadata, factor)
DET = "Acquisition_instrument.Detector."
LASER = "Acquisition_instrument.Laser."
SPEC = "Acquisition_instrument.Spectrometer."
SETUP = {
    "Acq. time (s)": ("number", [DET + "exposure_per_frame"], 1),
    "Accumulations": ("number", [DET + "frames"], 1),
    "Delay time (s)": ("number", [DET + "delay_time"], 1),
    "Binning": ("number", [DET + "binning"], 1),
    "Detector temperature (°C)": ("number", [DET + "temperature"], 1),
    "Objective": ("second", [LASER + "objective_magnification"], 1),
    "Grating": ("second", [SPEC + "Grating.groove_density"], 1),
    "ND Filter": ("second", [LASER + "Filter.optical_density"], 0.01),
    "Laser (nm)": ("second", [LASER + "wavelength"], 1),
    "Spectro (nm)": ("second", [SPEC + "central_wavelength"], 1),
    "Hole": ("number", [SPEC + "entrance_slit_width", SPEC + "pinhole"], 0.01),
    "Laser Pol. (°)": ("number", [LASER + "Polarizer.angle"], 1),
    "Raman Pol. (°)": ("number", [SPEC + "Polarizer.angle"], 1),
    "X (µm)": ("number", [], 1),
    "Y (µm)": ("number", [], 1),
    "Z (µm)": ("number", [], 1),
    "Full time(s)": ("number", [], 1),
    "Windows": ("number", [DET + "glued_spectrum_windows"], 1),
    "Range": ("text", [SPEC + "spectral_range"], 1),
    "Instrument": ("text", [SPEC + "model"], 1),
    "Laser. Pol.": ("text", [LASER + "Polarizer.polarizer_type"], 1),
    "Raman. Pol.": ("text", [SPEC + "Polarizer.polarizer_type"], 1),
    "Detector": ("text", [DET + "model"], 1),
    "Autofocus": ("text", [DET + "processing.autofocus"], 1),
    "SWIFT": ("text", [DET + "processing.swift"], 1),
    "AutoExposure": ("text", [DET + "processing.auto_exposure"], 1),
    "Spike filter": ("text", [DET + "processing.spike_filter"], 1),
    "DeNoise": ("text", [DET + "processing.de_noise"], 1),
    "ICS correction": ("text", [DET + "processing.ics_correction"], 1),
    "Dark correction": ("text", [DET + "processing.dark_correction"], 1),
    "Inst. Process": ("text", [DET + "processing.inst_process"], 1),
    "Readout mode": ("text", [], 1),
    "StageXY": ("text", [], 1),
}
RENAMED = {"Grating": "Grating (gr/mm)", "ND Filter": "ND Filter (%)"}
AXES = {"nm": "Wavelength", "1/cm": "Raman Shift", "1/cm abs": "Wavenumber", "eV": "Energy", "µm": "Wavelength"}


@st.composite
def cases(draw):
    nav = draw(st.sampled_from([[], [], ["x"], ["x"], ["x", "y"], ["x", "y"], ["x", "y"]]))
    setup = {}
    usual = draw(st.booleans())
    for k, (kind, _, _) in SETUP.items():
        if usual and k != "Windows" or draw(st.integers(0, 3)):
            setup[k] = draw(TEXT) if kind == "text" else draw(POSITIVE if "Accum" in k else NUMBER)
    return dict(
        sizes=[draw(st.integers(1 if len(nav) == 2 else 2, 5)) for _ in nav],
        n=draw(st.integers(2, 40)),
        start=draw(st.floats(-100, 1000)),
        step=draw(st.floats(0.01, 10)),
        uniform=draw(st.booleans()),
        reverse=draw(st.booleans()),
        units=draw(st.sampled_from(sorted(AXES))),
        as_uniform=draw(st.sampled_from([None, False, True])),
        kind=draw(st.sampled_from(["int", "float", "exp"])),
        seed=draw(gen.seeds),
        nav_start=[draw(st.integers(-50, 50)) / 4 for _ in nav],
        nav_step=[draw(st.sampled_from([0.25, 1, 2, -0.5, 10])) for _ in nav],
        intensity=draw(st.sampled_from([("Intens", "Cnt/sec"), ("Intens", "Cnt"), ("Transm", "%")])),
        setup=setup,
        title=draw(TEXT),
        sample=draw(st.none() | TEXT),
        remark=draw(st.none() | TEXT),
        project=draw(st.none() | TEXT),
        date=draw(st.datetimes(datetime.datetime(1990, 1, 1), datetime.datetime(2100, 1, 1))).replace(microsecond=0),
        angle=draw(st.none() | st.floats(-3, 3)),
        order=draw(st.booleans()),
        name=draw(NAME),
        pathlib=draw(st.booleans()),
    )


def tag(id, text, format=7):
    return f'<LSX Format="{format}" ID="{id}">{escape(text)}</LSX>'


def node(id, *children):
    return f'<LSX Format="9" ID="{id}" Size="{len(children)}">' + "\n".join(children) + "</LSX>"


def numbers(values):
    s = ""
    for i in range(0, len(values), 15):
        s += " ".join(values[i : i + 15]) + " \n\t\t"
    return "\n\t\t" + s


def entry(name, value, second=None, order=True):
    t = [tag("0x6D6D616E", name)] + ([tag("0x7D6C61DB", value)] if value is not None else [])
    if not order:
        t.reverse()
    if second is not None:
        t.append(tag("0x8736F70", second, 5))
    return node("0x1234", *t)


def build(c):
    rng = np.random.default_rng(c["seed"])
    rows = int(np.prod(c["sizes"]))
    a = rng.normal(0, 1000, (rows, c["n"]))
    text = [["%d" % v if c["kind"] == "int" else "%.6g" % v if c["kind"] == "float" else "%.5e" % (v * 1e6) for v in row] for row in a]
    data = np.array([[float(v) for v in row] for row in text])
    axis = c["start"] + c["step"] * (np.arange(c["n"]) if c["uniform"] else np.cumsum(rng.uniform(0.5, 1.5, c["n"])))
    axis = [f"{v:.6g}" if c["uniform"] else repr(float(v)) for v in axis]
    if len(set(axis)) < len(axis):
        axis = [repr(float(c["start"] + c["step"] * i)) for i in range(c["n"])]
    if c["reverse"]:
        axis.reverse()
    nav = [[repr(s0 + i * d) for i in range(n)] for n, s0, d in zip(c["sizes"], c["nav_start"], c["nav_step"])]
    ax = [node("0x0", tag("0x6D707974", c["intensity"][0]), tag("0x7C696E75", c["intensity"][1]))]
    ax.append(node("0x1", tag("0x7D6CD4DB", numbers(axis), 6), tag("0x6D707974", "Spectr"), tag("0x7C696E75", c["units"])))
    for i, v in enumerate(nav):
        ax.append(node(f"0x{i + 2}", tag("0x7D6CD4DB", numbers(v), 6), tag("0x6D707974", "XY"[i]), tag("0x7C696E75", "µm")))
    setup = [entry(k, f"{v} x" if SETUP[k][0] == "second" else v, v if SETUP[k][0] == "second" else None, c["order"]) for k, v in c["setup"].items()]
    info = [entry(k, v, None, c["order"]) for k, v in (("Project", c["project"]), ("Sample", c["sample"]), ("Title", c["title"]), ("Remark", c["remark"]))]
    tree = [tag("0x6D707974", "SpIm"), tag("0x6C7469D9", c["title"]), node("0x7A74D9D6", node("0x7B697861", *ax))]
    if c["angle"] is not None:
        tree.append(node("0x6C676EC6", tag("0x0", repr(c["angle"]), 5), tag("0x1", "0", 5)))
    acquired = f"{c['date']:%d.%m.%Y %H:%M:%S}"
    tree.append(node("0x6C62D4D9", node("0x8716361", *setup), node("0x7C73E2D2", *info), node("0x7CECDBD7", entry("Acquired", acquired, None, c["order"]))))
    matrix = "".join(f'<LSX_Row Format="6" Index="{i}" Size="{c["n"]}">{numbers(row)}</LSX_Row>\n' for i, row in enumerate(text))
    xml = f'<?xml version="1.0" encoding="UTF-8"?>\n<LSX_Data><LSX_Tree Format="9" ID="0x69746164" Size="{len(tree)}">' + "\n".join(tree)
    xml += f'</LSX_Tree>\n<LSX_Matrix Format="6" ID="0x7D6CD4DB" Size="{rows * c["n"]}">{matrix}</LSX_Matrix></LSX_Data>\n'
    return xml, data, np.array([float(v) for v in axis]), acquired


def check(c, ctx):
    from rsciio.jobinyvon import file_reader

    xml, data, axis, acquired = build(c)
    p = pathlib.Path(ctx.path(c["name"] + ".xml"))
    p.write_text(xml, encoding="utf-8")
    kw = {} if c["as_uniform"] is None else {"use_uniform_signal_axis": c["as_uniform"]}
    (r,) = ctx.sut(file_reader, p if c["pathlib"] else str(p), **kw)
    ctx.nontrivial(len(c["setup"]) > 5)
    ctx.label(f"{len(c['sizes'])} nav", "reversed" if c["reverse"] else "ascending", "uniform" if c["as_uniform"] else "table")
    sigs.check_structure(ctx, r)
    want = data
    if axis[0] > axis[1]:
        axis, want = axis[::-1], data[:, ::-1]
    nav = [(i, n) for i, n in enumerate(c["sizes"]) if n > 1][::-1]
    want = want.reshape([n for _, n in nav] + [c["n"]])
    ctx.expect(r["data"].shape == want.shape and np.array_equal(r["data"], want), "data", lambda: f"{gen.short(r['data'])} instead of {gen.short(want)}")
    ctx.expect(len(r["axes"]) == len(nav) + 1, "number of axes", f"{r['axes']}")
    for j, (ax, (i, n)) in enumerate(zip(r["axes"], nav)):
        ctx.expect((ax["name"], ax["units"], ax["size"], ax["navigate"], ax["index_in_array"]) == ("XY"[i], "µm", n, True, j), "navigation axis", f"{ax}")
        ctx.expect(gen.close(ax["scale"], c["nav_step"][i]) and gen.close(ax["offset"], c["nav_start"][i]), "navigation calibration", f"{ax}")
    ax = r["axes"][-1]
    ctx.expect((ax["name"], ax["units"], ax["navigate"], ax["index_in_array"]) == (AXES[c["units"]], c["units"].replace(" abs", ""), False, len(nav)), "signal axis", f"{ax}")
    if c["as_uniform"]:
        j = np.arange(c["n"]) - (c["n"] - 1) / 2
        scale = (j * axis).sum() / (j * j).sum()
        eps = 1e-9 * (abs(axis).max() + 1)
        ctx.expect(ax["size"] == c["n"] and abs(ax["scale"] - scale) <= eps and abs(ax["offset"] - axis.mean() + scale * (c["n"] - 1) / 2) <= eps, "uniform axis", f"{ax}: {axis}")
    else:
        ctx.expect(np.array_equal(ax["axis"], axis), "axis values", lambda: f"{ax['axis']} instead of {axis}")
    m = r["metadata"]
    g = m["General"]
    ctx.expect(g["title"] == c["title"] and g["original_filename"] == p.name and (g.get("notes") or None) == c["remark"], "general", f"{g}")
    d = c["date"]
    ctx.expect(g["date"] in (f"{d:%d.%m.%Y}", f"{d:%Y-%m-%d}") and g["time"] == f"{d:%H:%M:%S}", "date", f"{g}: {d}")
    ctx.expect((sigs.get(m, "Sample.description") or None) == c["sample"], "sample", f"{m}")
    i, u = c["intensity"]
    q = f"{'Intensity' if i == 'Intens' else i} ({ {'Cnt/sec': 'Counts/s', 'Cnt': 'Counts'}.get(u, u) })"
    ctx.expect(m["Signal"]["quantity"] == q.replace("( ", "(").replace(" )", ")"), "quantity", f"{m['Signal']}")
    om = r["original_metadata"]
    es = om["experimental_setup"]
    for k, (kind, paths, f) in SETUP.items():
        v = c["setup"].get(k)
        got = es.get(RENAMED.get(k, k))
        if v is not None and kind != "text":
            v = float(v)
        ctx.expect(got == v, "setup", f"{k}: {got!r} instead of {v!r}")
        for path in paths:
            got = sigs.get(m, path)
            ctx.expect(got is None if v is None else got == v if kind == "text" else gen.close(got, v * f), "metadata", f"{path}: {got!r} instead of {v!r} x {f}")
    ctx.expect(om["date"]["Acquired"] == acquired, "date", f"{om['date']}")
    for k, v in (("Project", c["project"]), ("Sample", c["sample"]), ("Title", c["title"]), ("Remark", c["remark"])):
        ctx.expect((om["file_information"].get(k) or None) == v, "file information", f"{k}: {om['file_information']}")
    t = sigs.get(m, DET + "integration_time")
    if "Accumulations" in c["setup"] and "Acq. time (s)" in c["setup"]:
        ctx.expect(gen.close(t, float(c["setup"]["Accumulations"]) * float(c["setup"]["Acq. time (s)"])), "integration time", f"{t}")
    else:
        ctx.expect(t is None, "integration time", f"{t}")
    ctx.expect(sigs.get(m, DET + "glued_spectrum") is ("Windows" in c["setup"]), "glued", f"{m}")
    a = sigs.get(m, "Acquisition_instrument.Spectral_image.rotation_angle")
    ctx.expect(a is None if c["angle"] is None else gen.close(a, math.degrees(c["angle"])), "rotation", f"{a}: {c['angle']}")


PROP = Prop(
    "C28",
    "the file has more than five entries in its experimental setup",
    [Sub("xml", cases, check, quick=1600, shards=4)],
    assumptions=["spectra of at least two channels", "the acquisition date being 'date time'"],
)

"""C30: TriVista tvf files: spectra, glued spectra, line scans, maps, time series."""

import datetime
import pathlib
from xml.sax.saxutils import escape, quoteattr

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

NAME = st.text("abcXYZ- 09é", min_size=1, max_size=12).map(str.strip).filter(bool)
WORD = st.text("abXYZ-&<é", min_size=2, max_size=8)
HW = "Acquisition_instrument."


@st.composite
def spectrometer(draw, serial):
    n = draw(st.sampled_from([1, 2, 3, 3]))
    grooves = draw(st.lists(st.integers(50, 2400), min_size=n, max_size=n, unique=True))
    return dict(
        serial=serial,
        model=draw(WORD),
        gratings=[(g, draw(st.sampled_from(["550NM", "H-VIS", "500.5NM", "H-NIR"]))) for g in grooves],
        grating=draw(st.integers(0, n - 1)),
        slits=draw(st.none() | st.lists(st.integers(0, 12000), min_size=4, max_size=4)),
    )


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["spectrum", "spectrum", "x", "y", "xy", "xy", "time", "glue", "glue"]))
    sizes = {"spectrum": [], "glue": [], "x": 1, "y": 1, "xy": 2, "time": 1}[kind]
    if sizes:
        sizes = [draw(st.integers(2, 5)) for _ in range(sizes)]
    used = draw(st.sampled_from([1, 1, 1, 2, 3]))
    spare = draw(st.sampled_from([0, 0, 1, 2]))
    order = draw(st.permutations(range(used + spare)))
    microscopes = draw(st.sampled_from([0, 1, 1, 1, 2]))
    objectives = [draw(st.lists(st.integers(1, 150), min_size=1, max_size=3)) for _ in range(microscopes)]
    enabled = None
    if microscopes and draw(st.integers(0, 4)):
        i = draw(st.integers(0, microscopes - 1))
        enabled = (i, draw(st.integers(0, len(objectives[i]) - 1)))
    detectors = draw(st.lists(WORD, min_size=1, max_size=3, unique=True))
    waves = draw(st.lists(st.none() | st.integers(300, 1100) | st.just(0), max_size=4, unique_by=lambda v: object() if not v else v))
    return dict(
        kind=kind,
        sizes=sizes,
        n=draw(st.integers(2, 30)),
        seed=draw(gen.seeds),
        values=draw(st.sampled_from(["int", "float"])),
        start=draw(st.floats(-100, 1000)),
        step=draw(st.floats(0.01, 10)),
        uniform=draw(st.booleans()),
        nav=[(draw(st.integers(-100, 100)) / 1000, draw(st.integers(1, 100)) / 1000) for _ in sizes],
        period=draw(st.integers(1, 10**9)),
        glued=draw(st.integers(1, 4)) if kind == "glue" else 0,
        overlap=draw(st.integers(0, 100)),
        spectrometers=[draw(spectrometer(f"2758{i}")) for i in range(used)],
        others=[draw(spectrometer(f"99{i}")) for i in range(spare)],
        order=list(order),
        objectives=objectives,
        enabled=enabled,
        detectors=detectors,
        detector=draw(st.integers(0, len(detectors) - 1)),
        waves=waves,
        calibration=draw(st.none() | st.tuples(st.integers(100, 2000), st.sampled_from([0] + [w for w in waves if w]))),
        temperature=draw(st.integers(-120, 30)),
        exposure=draw(st.integers(1, 100000)),
        accumulations=draw(st.integers(1, 10)),
        average=draw(st.booleans()),
        label=draw(st.sampled_from([("Intensity", "Counts"), ("Intensity", "cps")])),
        date=draw(st.datetimes(datetime.datetime(1990, 1, 1), datetime.datetime(2100, 1, 1))),
        as_uniform=draw(st.sampled_from([None, False, True])),
        stack=draw(st.sampled_from([None, False, True])),
        filter=draw(st.sampled_from([None, True, False])),
        name=draw(NAME),
        pathlib=draw(st.booleans()),
    )


def group(name, items, groups=()):
    s = "".join(f"<Item><Name>{escape(k)}</Name>{'<Value />' if v == '' else f'<Value>{escape(str(v))}</Value>'}<IsVisible>true</IsVisible></Item>" for k, v in items.items())
    return f"<Group><Name>{name}</Name>{f'<Items>{s}</Items>' if s else '<Items />'}{'<Groups>' + ''.join(groups) + '</Groups>' if groups else '<Groups />'}<IsVisible>true</IsVisible></Group>"


def info(c, child=False):
    frames = int(np.prod(c["sizes"])) if c["kind"] != "spectrum" else 1
    g = []
    exp = {"Mode": "Point by Point"}
    if c["kind"] == "glue":
        exp = {"Mode:": "Step & Glue", "From": "900.000 nm", "Overlap (%)": c["overlap"]}
    g.append(group("Experiment", exp))
    for axis in "XY":
        if axis.lower() in c["kind"] and c["kind"] in ("x", "y", "xy"):
            i = c["kind"].index(axis.lower())
            o, s = c["nav"][i]
            n = c["sizes"][i]
            g.append(group(f"{axis}-Axis", {"From": f"{o:.3f}", "To": f"{o + s * (n - 1):.3f}", "Step": f"{s:.3f}", "Points": n}))
    sp = []
    for s in c["spectrometers"]:
        d = {"Serialnumber": s["serial"], "Model": s["model"], "Groove_Density": f"{s['gratings'][s['grating']][0]} g/mm", "Order": 1}
        if s["slits"]:
            d.update(zip(["Slit_Entrance-Front", "Slit_Entrance-Side", "Slit_Exit-Front", "Slit_Exit-Side"], s["slits"]))
        sp.append(group("Spectrometer", d))
    g.append(group("Spectrometers", {}, sp))
    d = {"Name": c["detectors"][c["detector"]], "Serialnumber": "", "Detector_Size": "1024;1", "Detector_Temperature": c["temperature"], "Exposure_Time_(ms)": c["exposure"], "No_of_Accumulations": c["accumulations"], "Calc_Average": c["average"], "No_of_Frames": 1 if c["kind"] == "glue" else frames}
    g.append(group("Detector", d))
    if c["calibration"]:
        g.append(group("Calibration", {"Center_Wavelength": f"{c['calibration'][0]:.3f}", "Laser_Wavelength": f"{c['calibration'][1]:.3f}"}))
    if c["kind"] == "time":
        # as in recorded files: a second group of the same name
        g.append(group("Experiment", {"Mode:": "Intensity Versus Time", "Frames": frames}))
    return f'<?xml version="1.0" encoding="utf-16"?>\r\n<Info xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"><Groups>{"".join(g)}</Groups></Info>'


def hardware(c):
    def count(tag, children):
        return f'<{tag} Count="{len(children)}">{"".join(children)}</{tag}>' if children else f'<{tag} Count="0" />'

    sp = []
    all = c["spectrometers"] + c["others"]
    for i in c["order"]:
        s = all[i]
        gr = [f'<Grating GrooveDensity="{g} g/mm" Blaze="{b}" Turret="1"><Offsets Count="0" /></Grating>' for g, b in s["gratings"]]
        sp.append(f'<Spectrometer GUID="x{i}" Model={quoteattr(s["model"])} Serialnumber="{s["serial"]}" FocalLength="500">{count("Gratings", gr)}</Spectrometer>')
    de = [f'<Detector GUID="d{i}" Driver="PvCam" Name={quoteattr(n)} Size="1024;1" />' for i, n in enumerate(c["detectors"])]
    li = []
    for i, w in enumerate(c["waves"]):
        wl = '<Wavelengths Count="0" />' if w is None else f'<Wavelengths Count="1" Value_0="{w:.3f}" />'
        li.append(f'<LightSource GUID="l{i}" Name="L{i}" Type="Laser">{wl}</LightSource>')
    mi = []
    for i, o in enumerate(c["objectives"]):
        ob = [f'<Objective IsEnabled="{(i, j) == c["enabled"]}" Name="{m}x" Magnification="{m:.3f}" />' for j, m in enumerate(o)]
        mi.append(f'<Microscope GUID="m{i}" Name="M{i}">{count("Objectives", ob)}</Microscope>')
    return f'<Hardware Version="2">{count("Spectrometers", sp)}{count("Detectors", de)}<SinglePointDetectors Count="0" />{count("LightSources", li)}{count("Microscopes", mi)}</Hardware>'


def document(c, axis, frames, stamps, childs=""):
    d = c["date"]
    record = f"{d:%m/%d/%Y %H:%M:%S}.{d.microsecond // 1000:03d}"
    s = f'<Document Version="2" Label="{c["label"][0]}" DataLabel="{c["label"][1]}" DocType="Spectra" RecordTime="{record}" InfoSerialized={quoteattr(info(c))}>'
    s = s.replace("\r\n", "&#xD;&#xA;")
    s += f'<Comments Count="0" /><Peaks Count="0" /><Experiment /><xDim Length="{len(axis)}"><Calibration Label="" Unit="Nanometer" DisplayUnit="Nanometer" Type="ValueArray" LaserWave="0.000" ValueArray="{len(axis)}|{"|".join(axis)}" /></xDim>'
    s += '<yDim Length="1"><Calibration Label="" Unit="Nanometer" Type="ValueArray" ValueArray="0" /></yDim>'
    s += '<Data DataType="Double" Color="#00FFFFFF">' + "".join(f'<Frame xDim="{len(axis)}" yDim="1" TimeStamp="{t}" Type="Number" Peaks="[]">{";".join(f)}</Frame>\n' for f, t in zip(frames, stamps)) + "</Data>"
    return s + (f"{childs}" if childs else '<Childs Count="0" />') + "</Document>"


def spectra(c, rng, frames, n):
    a = rng.normal(0, 1000, (frames, n))
    text = [["%d" % v if c["values"] == "int" else repr(round(float(v), 6)) for v in row] for row in a]
    return text, np.array([[float(v) for v in row] for row in text])


def channels(c, rng, n):
    v = c["start"] + c["step"] * (np.arange(n) if c["uniform"] else np.cumsum(rng.uniform(0.5, 1.5, n)))
    text = [repr(float(x)) for x in v]
    return text, v


def build(c):
    rng = np.random.default_rng(c["seed"])
    n = int(np.prod(c["sizes"]))
    text, data = spectra(c, rng, n, c["n"])
    axis, channel = channels(c, rng, c["n"])
    t0 = 636107419215048292
    stamps = [t0 + i * c["period"] for i in range(n)] if c["kind"] == "time" else [0] * n
    childs, stack = "", []
    if c["glued"]:
        m = int(rng.integers(2, 20))
        docs = []
        for i in range(c["glued"]):
            a, ch = channels(c, rng, m)
            t, d = spectra(c, rng, 1, m)
            stack.append((d[0], ch))
            docs.append(document(c, a, t, [t0 + i]))
        childs = f'<Childs Count="{len(docs)}">{"".join(docs)}</Childs>'
    xml = '<?xml version="1.0" encoding="utf-8"?>\n<!--TriVista-File. (c) S&I GmbH, all rights reserved. -->\n<XmlMain Version="1.0.1" Filename="D:\\x.tvf" DateTime="06/27/2022 18:17:03" PlugInName="" PlugInData="">'
    xml += hardware(c) + '<Documents Count="1">' + document(c, axis, text, stamps, childs) + "</Documents></XmlMain>"
    return xml, data, channel, stack


def as_list(x):
    return x if isinstance(x, list) else [x]


def check(c, ctx):
    from rsciio.trivista import file_reader

    xml, data, channel, stack = build(c)
    p = pathlib.Path(ctx.path(c["name"] + ".tvf"))
    p.write_text(xml, encoding="utf-8-sig")
    kw = {k: v for k, v in dict(use_uniform_signal_axis=c["as_uniform"], glued_data_as_stack=c["stack"], filter_original_metadata=c["filter"]).items() if v is not None}
    rs = ctx.sut(file_reader, p if c["pathlib"] else str(p), **kw)
    ctx.nontrivial(True)
    ctx.label(c["kind"], "uniform" if c["as_uniform"] else "table", "stack" if c["stack"] else "one")
    wants = stack if c["glued"] and c["stack"] else [(data, channel)]
    ctx.expect(len(rs) == len(wants), "number of signals", f"{len(rs)} instead of {len(wants)}")
    nav = c["sizes"][::-1]
    names = {"x": ["X"], "y": ["Y"], "xy": ["Y", "X"], "time": ["time"]}.get(c["kind"], [])
    for r, (want, ch) in zip(rs, wants):
        sigs.check_structure(ctx, r)
        want = want.reshape(nav + [len(ch)])
        ctx.expect(r["data"].shape == want.shape and np.array_equal(r["data"], want), "data", lambda: f"{gen.short(r['data'])} instead of {gen.short(want)}")
        ctx.expect([a["name"] for a in r["axes"]] == names + ["Wavelength"], "axes", f"{r['axes']}")
        for i, (ax, n) in enumerate(zip(r["axes"], nav)):
            o, s = (0, c["period"] / 1e7) if c["kind"] == "time" else c["nav"][::-1][i]
            ctx.expect((ax["size"], ax["index_in_array"], ax["navigate"], ax["units"]) == (n, i, c["kind"] != "time", "s" if c["kind"] == "time" else "µm"), "axis", f"{ax}")
            ctx.expect(gen.close(ax["offset"], o) and gen.close(ax["scale"], s), "calibration", f"{ax}: {o}, {s}")
        ax = r["axes"][-1]
        ctx.expect(ax["units"] == "nm" and ax["navigate"] is False, "signal axis", f"{ax}")
        if c["as_uniform"]:
            j = np.arange(len(ch)) - (len(ch) - 1) / 2
            scale = (j * ch).sum() / (j * j).sum()
            eps = 1e-9 * (abs(ch).max() + 1)
            ctx.expect(ax["size"] == len(ch) and abs(ax["scale"] - scale) <= eps and abs(ax["offset"] - ch.mean() + scale * (len(ch) - 1) / 2) <= eps, "uniform axis", f"{ax}: {ch}")
        else:
            ctx.expect(np.array_equal(ax["axis"], ch), "axis values", lambda: f"{ax['axis']} instead of {ch}")
        m = r["metadata"]
        d = c["date"]
        ctx.expect(m["General"] == dict(title=c["name"], original_filename=p.name, date=f"{d:%Y-%m-%d}", time=f"{d:%H:%M:%S}"), "general", f"{m['General']}: {d}")
        ctx.expect(m["Signal"]["quantity"] == "%s (%s)" % c["label"], "quantity", f"{m['Signal']}")
        want = dict(processing=dict(calc_average=c["average"]), temperature=c["temperature"], frames=c["accumulations"], exposure_per_frame=c["exposure"] / 1000)
        want["integration_time"] = c["exposure"] / 1000 * (1 if c["average"] else c["accumulations"])
        if c["kind"] == "glue":
            want.update(glued_spectrum=True, glued_spectrum_overlap=c["overlap"], glued_spectrum_windows=c["glued"])
        elif c["kind"] != "time":
            want.update(glued_spectrum=False)
        got = {k: v for k, v in m["Acquisition_instrument"]["Detector"].items()}
        ctx.expect(not gen.deep_diff(got, want), "detector", lambda: f"{got} instead of {want}")
        mag = c["enabled"] and c["objectives"][c["enabled"][0]][c["enabled"][1]]
        laser = c["calibration"] and c["calibration"][1] or None
        got = m["Acquisition_instrument"].get("Laser", {})
        ctx.expect(got == {k: v for k, v in dict(objective_magnification=mag, wavelength=laser).items() if v is not None}, "laser", lambda: f"{got} instead of {mag}, {laser}")
        for i, s in enumerate(c["spectrometers"]):
            key = "Spectrometer" + (str(i + 1) if len(c["spectrometers"]) > 1 else "")
            g, b = s["gratings"][s["grating"]]
            want = dict(Grating=dict(groove_density=g, blazing_wavelength=float(b[:-2]) if b.endswith("NM") else b), model=s["model"])
            if c["calibration"]:
                want["central_wavelength"] = c["calibration"][0]
            if s["slits"]:
                want.update(entrance_slit_width=max(s["slits"][:2]) / 1000, exit_slit_width=max(s["slits"][2:]) / 1000)
            got = m["Acquisition_instrument"].get(key)
            ctx.expect(got == want, "spectrometer", lambda: f"{key}: {got} instead of {want}")
        hw = r["original_metadata"]["Hardware"]
        if c["filter"] is False:
            ctx.expect([x["Name"] for x in as_list(hw["Detectors"]["Detector"])] == c["detectors"], "detectors", f"{hw['Detectors']}")
            ctx.expect([x["Name"] for x in as_list(hw["LightSources"].get("LightSource", []))] == [f"L{i}" for i in range(len(c["waves"]))], "light sources", f"{hw['LightSources']}")
            got = [[o["Magnification"] for o in as_list(x["Objectives"]["Objective"])] for x in as_list(hw["Microscopes"].get("Microscope", []))]
            ctx.expect(got == c["objectives"], "objectives", f"{hw['Microscopes']}")
            ctx.expect(len(as_list(hw["Spectrometers"]["Spectrometer"])) == len(c["order"]), "spectrometers", f"{hw['Spectrometers']}")
        else:
            ctx.expect(hw["Detectors"]["Detector"]["Name"] == c["detectors"][c["detector"]], "detector used", f"{hw['Detectors']}")
            if c["enabled"]:
                ctx.expect(hw["Microscopes"]["Microscope"]["Name"] == f"M{c['enabled'][0]}" and hw["Microscopes"]["Microscope"]["Objectives"]["Objective"]["Magnification"] == mag, "objective used", f"{hw['Microscopes']}")
            if laser:
                ctx.expect(hw["LightSources"]["LightSource"]["Name"] == f"L{c['waves'].index(laser)}", "laser used", f"{hw['LightSources']}")
            sp = r["original_metadata"]["Document"]["InfoSerialized"]["Spectrometers"]
            ctx.expect(sorted(x["Serialnumber"] for x in sp.values()) == sorted(int(s["serial"]) for s in c["spectrometers"]), "spectrometers used", f"{sp}")


PROP = Prop(
    "C30",
    "every case is a file of generated hardware, spectra and axes",
    [Sub("tvf", cases, check, quick=1200, shards=4)],
    assumptions=["at least two channels", "one light source per laser wavelength", "at most one objective enabled", "glued spectra without other axes"],
)

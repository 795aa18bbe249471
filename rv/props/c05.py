"""C05: EMSA/MAS spectra."""

import copy
import datetime

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

MONTHS = "JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC".split()

# keyword -> (type, metadata path)
TEM = "Acquisition_instrument.TEM."
KW = {
    "BEAMKV": TEM + "beam_energy",
    "PROBECUR": TEM + "beam_current",
    "CONVANGLE": TEM + "convergence_angle",
    "THICKNESS": "Sample.thickness",
    "XTILTSTGE": TEM + "Stage.tilt_alpha",
    "INTEGTIME": TEM + "Detector.EELS.exposure",
    "DWELLTIME": TEM + "Detector.EELS.dwell_time",
    "COLLANGLE": TEM + "Detector.EELS.collection_angle",
    "ELEVANGLE": TEM + "Detector.EDS.elevation_angle",
    "AZIMANGLE": TEM + "Detector.EDS.azimuth_angle",
    "SOLIDANGLE": TEM + "Detector.EDS.solid_angle",
    "LIVETIME": TEM + "Detector.EDS.live_time",
    "REALTIME": TEM + "Detector.EDS.real_time",
    "FWHMMNKA": TEM + "Detector.EDS.energy_resolution_MnKa",
}
UNMAPPED_F = ["EMISSION", "BEAMDIAM", "MAGCAM", "YTILTSTGE", "XPOSITION", "YPOSITION", "ZPOSITION", "CHOFFSET", "TBEWIND", "TAUWIND", "TDEADLYR", "TACTLYR", "TALWIND", "TPYWIND", "TBNWIND", "TDIWIND", "THCWIND"]
UNMAPPED_S = ["OPERMODE", "ELSDET"]
UNITS = {"BEAMKV": "kV", "PROBECUR": "nA", "THICKNESS": "nm", "ELEVANGLE": "dg", "AZIMANGLE": "dg", "XTILTSTGE": "dg", "LIVETIME": "s", "CONVANGLE": "mR", "XPOSITION": "mm", "EMISSION": "uA"}

txt = gen.text(max_size=20, ascii_only=True).map(str.strip)
latin = st.text(st.one_of(st.characters(min_codepoint=32, max_codepoint=126), st.sampled_from("éµÅ°±")), max_size=200).map(lambda s: s.strip())
titles = st.one_of(latin, st.sampled_from(["a: b", "key : value: x", "x#y", "", "12", "a" * 64, "a" * 63 + " b", "é" * 130 + " z"]))
STYPES = ["", "EDS_SEM", "EDS_TEM", "EELS", "CL", "CL_SEM", "CL_STEM", "WDS", "AES", "PES", "XRF", "GAM", "brian"]
BACK = {"EDS_SEM": "EDS", "EDS_TEM": "EDS", "EELS": "EELS", "CL": "CL", "CL_SEM": "CL", "CL_STEM": "CL", "brian": ""}


@st.composite
def values(draw):
    n = draw(st.integers(1, 30))
    kind = draw(st.sampled_from(["int", "float", "small", "big"]))
    if kind == "int":
        return [float(v) for v in draw(st.lists(st.integers(0, 100000), min_size=n, max_size=n))]
    lim = {"float": 1e4, "small": 1e-3, "big": 1e12}[kind]
    return draw(st.lists(gen.floats(-lim, lim), min_size=n, max_size=n))


@st.composite
def cases(draw):
    return dict(
        y=draw(values()),
        dtype=draw(st.sampled_from(["f8", "f8", "f4", "i4"])),
        scale=draw(gen.scales),
        offset=draw(gen.offsets),
        name=draw(txt.filter(lambda s: s != "")),
        units=draw(st.sampled_from(["eV", "keV", "nm", "µm", "m-1", "a.u."])),
        title=draw(titles),
        stype=draw(st.sampled_from(STYPES)),
        date=draw(st.one_of(st.none(), st.dates(min_value=datetime.date(1000, 1, 1)))),
        time=draw(st.one_of(st.none(), st.times())),
        kws={k: draw(gen.floats(-1e6, 1e6)) for k in draw(st.sets(st.sampled_from(sorted(KW)), max_size=6))},
        format=draw(st.sampled_from(["Y", "XY", "Y", "XY", None])),
        sep=draw(st.sampled_from([", ", ",", " ", "  ", "\t"])),
        encoding=draw(st.sampled_from(["latin-1", "utf8"])),
        again=draw(st.sampled_from([None, "Y", "XY", "same"])),
    )


def put(d, path, v):
    p = path.split(".")
    for k in p[:-1]:
        d = d.setdefault(k, {})
    d[p[-1]] = v


def expect_y(y, fmt):
    y = np.asarray(y, dtype="f8")
    if fmt == "XY":
        return y, 1.01e-5, 0.0  # %g: six significant digits
    return y, 1e-12, 5.1e-7  # %f: six decimals


def check_spectrum(ctx, r, case, fmts):
    y = np.array(case["y"]).astype(case["dtype"]).astype("f8")
    sigs.check_structure(ctx, r)
    ctx.expect(r["data"].shape == y.shape, "size", f"{r['data'].shape} vs {y.shape}")
    rt = at = 0.0
    for f in fmts:
        _, a, b = expect_y(y, f)
        rt, at = rt + a, at + b
    ctx.expect(np.allclose(r["data"], y, rtol=rt, atol=at), "data", lambda: f"{r['data'].tolist()} vs {y.tolist()}")
    sigs.check_axes(
        ctx,
        r["axes"],
        [dict(name=case["name"], units=case["units"], scale=case["scale"], offset=case["offset"], size=len(y), navigate=False)],
    )


def check_meta(ctx, r, case, sem, again=False):
    md, om = r["metadata"], r["original_metadata"]
    ctx.expect(sigs.get(md, "General.title", "") == case["title"], "title", f"{sigs.get(md, 'General.title')!r} expected {case['title']!r}")
    t = BACK.get(case["stype"], case["stype"])
    got = sigs.get(md, "Signal.signal_type")
    if t == "EDS":
        kv = case["kws"].get("BEAMKV")
        t = "EDS_TEM" if kv is not None and kv > 30 else "EDS_SEM"
    ctx.expect(got == (t if t in ("EELS", "CL", "EDS_TEM", "EDS_SEM") else ""), "signal_type", f"{case['stype']} read as {got}")
    # a type without hyperspy equivalent (e.g. WDS) is only kept by the first save
    known = ("EELS", "CL", "EDS_TEM", "EDS_SEM")
    ctx.expect((again and t not in known) or (om.get("SIGNALTYPE") or "") == {"EELS": "ELS", "CL": "CLS", "EDS_TEM": "EDS", "EDS_SEM": "EDS"}.get(t, t), "SIGNALTYPE", f"{om.get('SIGNALTYPE')}")
    for k, v in case["kws"].items():
        ctx.expect(gen.close(om.get(k), v, 1e-12), "keyword", f"{k}: {om.get(k)!r} expected {v!r}")
        g = sigs.get(md, KW[k])
        if g is None and sem:
            g = sigs.get(md, KW[k].replace("TEM", "SEM"))
        ctx.expect(gen.close(g, v, 1e-12), "mapped", f"{KW[k]}: {g!r} expected {v!r}")
    if case["date"]:
        d = case["date"]
        ctx.expect(sigs.get(md, "General.date") == d.isoformat(), "date", f"{sigs.get(md, 'General.date')} expected {d}")
    if case["time"]:
        ctx.expect(str(sigs.get(md, "General.time")).startswith(case["time"].strftime("%H:%M")), "time", f"{sigs.get(md, 'General.time')} expected {case['time']}")


def check(case, ctx):
    from rsciio.msa import file_reader, file_writer

    sem = "SEM" in case["stype"]
    md = {"General": {"title": case["title"]}, "Signal": {"signal_type": case["stype"]}}
    if case["date"]:
        md["General"]["date"] = case["date"].isoformat()
    if case["time"]:
        md["General"]["time"] = case["time"].isoformat()
    for k, v in case["kws"].items():
        put(md, KW[k].replace("TEM", "SEM") if sem else KW[k], v)
    s = sigs.signal(
        np.array(case["y"]).astype(case["dtype"]),
        [sigs.axis(0, len(case["y"]), name=case["name"], units=case["units"], scale=case["scale"], offset=case["offset"])],
        metadata=md,
    )
    p = ctx.path("a.msa")
    ctx.label("type:" + case["stype"], str(case["format"]), "again" if case["again"] else "once")
    ctx.nontrivial(len(case["y"]) > 2 and (len(case["kws"]) > 0 or len(case["title"]) > 64))
    ctx.sut(file_writer, p, s, format=case["format"], separator=case["sep"], encoding=case["encoding"])
    r = ctx.sut(file_reader, p, encoding=case["encoding"])
    ctx.expect(len(r) == 1, "count")
    fmt = case["format"] or "Y"
    ctx.expect(r[0]["original_metadata"]["DATATYPE"] == fmt, "DATATYPE", f"{r[0]['original_metadata']['DATATYPE']} expected {fmt}")
    check_spectrum(ctx, r[0], case, [fmt])
    check_meta(ctx, r[0], case, sem)
    ctx.expect(sigs.get(r[0]["metadata"], "General.original_filename") == "a.msa", "original_filename")
    if case["again"]:
        # a loaded spectrum can be saved again, and again, without losing keywords
        r1 = r[0]
        again = None if case["again"] == "same" else case["again"]
        om0 = copy.deepcopy(r1["original_metadata"])
        for i in range(2):
            q = ctx.path(f"b{i}.msa")
            s2 = sigs.signal(r1["data"], r1["axes"], metadata=r1["metadata"], original_metadata=r1["original_metadata"])
            ctx.sut(file_writer, q, s2, format=again, separator=case["sep"], encoding=case["encoding"])
            r2 = ctx.sut(file_reader, q, encoding=case["encoding"])[0]
            check_spectrum(ctx, r2, case, [fmt, again or fmt])
            ctx.expect(r2["original_metadata"]["DATATYPE"] == (again or fmt), "DATATYPE-again", f"{r2['original_metadata']['DATATYPE']} expected {again or fmt}")
            check_meta(ctx, r2, case, sem, True)
            for k, v in om0.items():
                if k in ("DATATYPE", "NPOINTS", "NCOLUMNS", "SIGNALTYPE"):
                    continue
                ctx.expect((r2["original_metadata"].get(k) or "") == (v or ""), "keyword-kept", f"save {i + 1}: {k}: {r2['original_metadata'].get(k)!r} expected {v!r}")


# ------------------------------------------------------------ foreign files


@st.composite
def foreign(draw):
    n = draw(st.integers(1, 40))
    dtype = draw(st.sampled_from(["Y", "XY"]))
    ncol = draw(st.integers(1, 6)) if dtype == "Y" else draw(st.integers(1, 2))
    fl = {}
    for k in draw(st.sets(st.sampled_from(sorted(KW) + UNMAPPED_F), max_size=8)):
        fl[k] = (draw(gen.floats(-1e5, 1e5)), draw(st.booleans()), draw(st.sampled_from(["plain", "plain", "sci", "scispace", "two"])))
    return dict(
        n=n,
        seed=draw(gen.seeds),
        datatype=dtype,
        ncol=ncol,
        eol=draw(st.sampled_from(["\n", "\r\n"])),
        sep=draw(st.sampled_from([", ", ",", " "])),
        trailing=draw(st.booleans()),
        numfmt=draw(st.sampled_from(["%.9g", "%.8e", "%.6f"])),
        title=draw(st.lists(st.sampled_from(["NIO EELS", "OK SHELL: part", "x", "a b c"]), min_size=1, max_size=3)),
        comment=draw(st.lists(txt.filter(bool), max_size=3)),
        xlabel=draw(txt),
        ylabel=draw(st.one_of(st.none(), txt)),
        yunits=draw(st.one_of(st.none(), txt)),
        date=draw(st.dates(min_value=datetime.date(1950, 1, 1))),
        time=draw(st.times()),
        seconds=draw(st.booleans()),
        month=draw(st.sampled_from(["upper", "title"])),
        scale=draw(gen.scales),
        offset=draw(gen.offsets),
        stype=draw(st.sampled_from(["EDS", "WDS", "ELS", "AES", "PES", "XRF", "CLS", "GAM", None])),
        fl=fl,
        strs={k: draw(txt.filter(bool)) for k in draw(st.sets(st.sampled_from(UNMAPPED_S + ["EDSDET", "OWNER"]), max_size=3))},
    )


def check_foreign(case, ctx):
    from rsciio.msa import file_reader, parse_msa_string

    c = case
    out = []

    def kw(k, v, units=None):
        name = k + ("-" + units if units else "")
        out.append("#%-12s: %s" % (name, v))

    kw("FORMAT", "EMSA/MAS Spectral Data File")
    kw("VERSION", "1.0")
    for t in c["title"]:
        kw("TITLE", t)
    d = c["date"]
    m = MONTHS[d.month - 1]
    kw("DATE", f"{d.day:02d}-{m if c['month'] == 'upper' else m.title()}-{d.year}")
    kw("TIME", c["time"].strftime("%H:%M:%S" if c["seconds"] else "%H:%M"))
    kw("NPOINTS", f"{c['n']}.")
    kw("NCOLUMNS", f"{c['ncol']}.")
    kw("XUNITS", "eV")
    kw("XLABEL", c["xlabel"])
    if c["ylabel"] is not None:
        kw("YLABEL", c["ylabel"])
    if c["yunits"] is not None:
        kw("YUNITS", c["yunits"])
    kw("DATATYPE", c["datatype"])
    kw("XPERCHAN", repr(c["scale"]))
    kw("OFFSET", repr(c["offset"]))
    if c["stype"]:
        kw("SIGNALTYPE", c["stype"])
    for t in c["comment"]:
        kw("COMMENT", t)
    exp = {}
    for k, (v, u, how) in c["fl"].items():
        txtv = repr(v)
        if how == "sci":
            txtv = "%.10E" % v
        elif how == "scispace":
            txtv = ("%.10E" % v).replace("E", " E")
        elif how == "two":
            # two values: the first one counts
            txtv = "%.6f" % v
            kw(k, txtv + " 12.5", UNITS.get(k) if u else None)
            exp[k] = (k + ("-" + UNITS[k] if u and k in UNITS else ""), float(txtv))
            continue
        name = k + ("-" + UNITS[k] if u and k in UNITS else "")
        kw(k, txtv, UNITS.get(k) if u else None)
        exp[k] = (name, float(txtv.replace(" ", "")))
    for k, v in c["strs"].items():
        kw(k, v)
    kw("SPECTRUM", "Spectral Data Starts Here")
    rng = np.random.default_rng(c["seed"])
    y = np.array([float(c["numfmt"] % v) for v in rng.normal(size=c["n"]) * 1e3])
    x = c["offset"] + c["scale"] * np.arange(c["n"])
    tail = c["sep"].rstrip() if c["trailing"] else ""
    if c["datatype"] == "Y":
        for i in range(0, c["n"], c["ncol"]):
            out.append(c["sep"].join(c["numfmt"] % v for v in y[i : i + c["ncol"]]) + tail)
    else:
        for i in range(0, c["n"], c["ncol"]):
            out.append(c["sep"].join("%.9g%s%s" % (a, c["sep"], c["numfmt"] % b) for a, b in zip(x[i : i + c["ncol"]], y[i : i + c["ncol"]])) + tail)
    out.append("#ENDOFDATA   : End Of Data and File")
    content = c["eol"].join(out) + c["eol"]
    p = ctx.path("f.msa")
    with open(p, "wb") as f:
        f.write(content.encode("latin-1"))
    ctx.nontrivial(len(c["fl"]) > 1)
    ctx.label(c["datatype"] + str(c["ncol"]), f"type:{c['stype']}")
    for r in (ctx.sut(file_reader, p), ctx.sut(parse_msa_string, content)):
        ctx.expect(len(r) == 1, "count")
        r = r[0]
        ctx.expect(gen.arrays_equal(r["data"], y), "data", lambda: f"{r['data'].tolist()} expected {y.tolist()}")
        sigs.check_axes(ctx, r["axes"], [dict(name=c["xlabel"], units="eV", scale=c["scale"], offset=c["offset"], size=c["n"], navigate=False)])
        md, om = r["metadata"], r["original_metadata"]
        ctx.expect(sigs.get(md, "General.title") == "".join(c["title"]), "title", f"{sigs.get(md, 'General.title')!r}")
        if c["comment"]:
            ctx.expect(om["COMMENT"] == "".join(c["comment"]), "comment", f"{om['COMMENT']!r} expected {''.join(c['comment'])!r}")
        ctx.expect(sigs.get(md, "General.date") == d.isoformat(), "date", f"{sigs.get(md, 'General.date')}")
        t = c["time"].replace(microsecond=0)
        t = t if c["seconds"] else t.replace(second=0)
        ctx.expect(sigs.get(md, "General.time") == t.isoformat(), "time", f"{sigs.get(md, 'General.time')} expected {t}")
        for k, (name, v) in exp.items():
            ctx.expect(gen.close(om.get(name), v, 1e-12), "keyword", f"{name}: {om.get(name)!r} expected {v!r}")
            if k in KW:
                ctx.expect(gen.close(sigs.get(md, KW[k]), v, 1e-12), "mapped", f"{KW[k]}: {sigs.get(md, KW[k])!r} expected {v}")
                u = UNITS[k] if name != k else None
                ctx.expect(sigs.get(md, KW[k] + "_units") == u, "mapped-units", f"{KW[k]}_units {sigs.get(md, KW[k] + '_units')!r} expected {u!r}")
        for k, v in c["strs"].items():
            ctx.expect(om.get(k) == v, "keyword", f"{k}: {om.get(k)!r} expected {v!r}")
        if "EDSDET" in c["strs"]:
            ctx.expect(sigs.get(md, TEM + "Detector.EDS.EDS_det") == c["strs"]["EDSDET"], "mapped", "EDSDET")
        q = sigs.get(md, "Signal.quantity", "")
        if c["ylabel"] and c["yunits"]:
            ctx.expect(q == f"{c['ylabel']} ({c['yunits']})", "quantity", f"{q!r}")
        st_ = sigs.get(md, "Signal.signal_type")
        e = {"ELS": "EELS", "CLS": "CL"}.get(c["stype"], "")
        if c["stype"] == "EDS":
            kv = c["fl"].get("BEAMKV")
            e = "EDS_TEM" if kv and exp["BEAMKV"][1] > 30 else "EDS_SEM"
        ctx.expect(st_ == e, "signal_type", f"{c['stype']} read as {st_!r}")


PROP = Prop(
    "C05",
    "Round trips of random spectra with random metadata of every mapped keyword, all signal types, both formats and "
    "encodings, saved once or repeatedly; and parsing of generated EMSA/MAS files (line endings, columns, unit "
    "suffixes, number notations, multi-line titles) against what was put in them. Non-trivial: more than one mapped "
    "keyword or a multi-line title.",
    [
        Sub("roundtrip", cases, check, quick=1400, shards=4),
        Sub("foreign", foreign, check_foreign, quick=1200, shards=4),
    ],
)

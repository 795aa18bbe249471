"""C19: Bruker composite (bcf) and spectrum (spx) files by an independent encoder."""

import base64
import importlib
import os
import struct
import subprocess
import sys
import sysconfig
import tempfile
import zlib
from xml.sax.saxutils import escape, quoteattr

import hypothesis.strategies as st
import numpy as np

from .. import boot, gen, sigs
from ..core import HarnessError, Prop, Sub

# ---------------------------------------------------------------- the two parsers

_mods = {}


def module(kind):
    """rsciio.bruker with the compiled parser of the current tree, or without."""
    if not _mods:
        d = tempfile.mkdtemp(prefix="unbcf", dir=os.environ.get("RV_SCRATCH") or None)
        src = os.path.join(boot.REPO, "rsciio", "bruker", "unbcf_fast.pyx")
        c = os.path.join(d, "unbcf_fast.c")
        so = os.path.join(d, "unbcf_fast.so")
        for cmd in (
            [sys.executable, "-m", "cython", "-3", src, "-o", c],
            ["gcc", "-O1", "-w", "-shared", "-fPIC", "-I", sysconfig.get_paths()["include"], "-I", np.get_include(), c, "-o", so],
        ):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise HarnessError(f"{cmd}: {r.stderr[-2000:]}")
        import rsciio.bruker

        names = ("rsciio.bruker._api", "rsciio.bruker", "rsciio.bruker.unbcf_fast")
        for which in ("python", "cython"):
            for n in names:
                sys.modules.pop(n, None)
            if which == "python":
                sys.modules["rsciio.bruker.unbcf_fast"] = None
            else:
                spec = importlib.util.spec_from_file_location("rsciio.bruker.unbcf_fast", so)
                m = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(m)
                sys.modules["rsciio.bruker.unbcf_fast"] = m
                import rsciio

                pkg = importlib.import_module("rsciio.bruker")
                pkg.unbcf_fast = m
            _mods[which] = importlib.import_module("rsciio.bruker").file_reader
        for f in (c, so):
            os.unlink(f)
        os.rmdir(d)
    return _mods[kind]


# ---------------------------------------------------------------- single file system


def aacs(content, size):
    """Compressed in blocks of `size` bytes."""
    blocks = [zlib.compress(content[i : i + size]) for i in range(0, len(content), size)]
    out = struct.pack("<4sIII", b"AACS", size, 0, len(blocks)).ljust(0x80, b"\0")
    for i, b in enumerate(blocks):
        out += struct.pack("<IIII", len(b), size, 12345, len(b) + 16) + b
    return out


def sfs(files, chunk, compress, order, items_first):
    """files: {path: content}; the chunks are scattered over the file."""
    usable = chunk - 32
    dirs = []
    for p in files:
        if "/" in p and p.split("/")[0] not in dirs:
            dirs.append(p.split("/")[0])
    items = [(d, -1, None) for d in dirs] if items_first else []
    items += [(p.split("/")[-1], p.split("/")[0] if "/" in p else None, c) for p, c in files.items()]
    if not items_first:
        items += [(d, -1, None) for d in dirs]
    where = {n: i for i, (n, par, c) in enumerate(items) if c is None}
    per = usable // 0x200
    n_tree = -(-len(items) // per)
    contents = [None if c is None else aacs(c, compress) if compress else c for _, _, c in items]
    need = n_tree
    for c in contents:
        if c is not None:
            n = max(1, -(-len(c) // usable))
            need += n + max(1, -(-n // (usable // 4)))
    free = iter((np.random.default_rng(order).permutation(need) + 1).tolist())
    chunks = {}

    def chain(pieces):
        ids = [next(free) for _ in pieces]
        for i, p, nxt in zip(ids, pieces, ids[1:] + [0xFFFFFFFF]):
            chunks[i] = struct.pack("<I", nxt).ljust(32, b"\0") + p.ljust(usable, b"\0")
        return ids

    table = b""
    for (name, parent, _), c in zip(items, contents):
        pointer = -1
        if c is not None:
            ids = chain([c[i : i + usable] for i in range(0, max(1, len(c)), usable)])
            raw = np.array(ids, "<u4").tobytes()
            pointer = chain([raw[i : i + 4 * (usable // 4)] for i in range(0, len(raw), 4 * (usable // 4))])[0]
        par = -1 if parent in (-1, None) else where[parent]
        table += struct.pack(
            "<iQQQQIi176s?3s256s32s", pointer, len(c or b""), 131_000_000_000_000_000, 131_000_000_000_000_000, 0, 0x80, par, b"", c is None, b"", name.encode(), b""
        )
    first = chain([table[i : i + per * 0x200] for i in range(0, len(table), per * 0x200)])[0]
    head = bytearray(0x118 + chunk)
    head[:8] = b"AAMVHFSS"
    head[0x124:0x12C] = struct.pack("<fI", 2.6, chunk)
    head[0x140:0x14C] = struct.pack("<III", first, len(items), need + 1)
    # the header shares the place of the first chunk
    out = bytearray(0x118 + chunk * (need + 1))
    out[: len(head)] = head
    for i, b in chunks.items():
        out[0x118 + chunk * i : 0x118 + chunk * (i + 1)] = b
    return bytes(out)


# ---------------------------------------------------------------- spectral map


def pulses12(channels):
    bits = "".join(f"{c:012b}" for c in channels)
    bits += "0" * (-len(bits) % 16)
    b = int(bits, 2).to_bytes(len(bits) // 8, "big")
    return np.frombuffer(b, ">u2").astype("<u2").tobytes()


def runs(values, seed):
    """Split a spectrum into instructions, of the smallest size or a larger one."""
    rng = np.random.default_rng(seed)
    out = b""
    i = 0
    n = len(values)
    while i < n:
        length = int(rng.integers(1, 40))
        if rng.integers(0, 10) == 0:
            length = 255
        v = values[i : i + length]
        if not any(v) and rng.integers(0, 4):
            out += struct.pack("<BB", 0, len(v))
        else:
            gain = int(rng.integers(0, min(v) + 1)) if rng.integers(0, 2) else min(v)
            d = [x - gain for x in v]
            fits = [s for s in (1, 2, 4, 8) if max(d) < 16 ** s and gain < 256**s]
            s = fits[0] if rng.integers(0, 3) else fits[rng.integers(0, len(fits))]
            out += struct.pack("<BB", s, len(v)) + gain.to_bytes(s, "little")
            if s == 1:
                d += [0] * (len(d) % 2)
                out += bytes(d[k] | d[k + 1] << 4 for k in range(0, len(d), 2))
            else:
                out += np.array(d, {2: "<u1", 4: "<u2", 8: "<u4"}[s]).tobytes()
        i += len(v)
    return out


def pixel(x, spec, p, channels):
    """22 bytes of header and the packed counts."""
    kind, extra, trim, seed = p
    spec = [int(v) for v in spec]
    total = sum(spec)
    if kind < 2 and not 0 < total <= 800:
        kind = 2
    if kind < 2:
        ch = np.repeat(np.arange(channels), spec)
        np.random.default_rng(seed).shuffle(ch)
        data = ch.astype("<u2").tobytes() if kind == 0 else pulses12(ch.tolist())
        return struct.pack("<IHHIHHHI", x, channels, channels, 7, kind, len(data), len(ch), len(data)) + data
    # some of the counts as pulses after the instructions
    rng = np.random.default_rng(seed)
    adds = []
    for k in rng.permutation(channels)[:extra].tolist():
        if spec[k]:
            spec[k] -= 1
            adds.append(k)
    n = channels
    if trim:
        while n and spec[n - 1] == 0:
            n -= 1
        # the additional pulses may lie beyond the channels packed
    data = runs(spec[:n], seed)
    body = data + (struct.pack("<I", 2 * len(adds)) + np.array(adds, "<u2").tobytes() if adds else bytes(4))
    return struct.pack("<IHHIHHHI", x, channels, n, 7, kind, len(data) & 0xFFFF, len(adds), len(data) + 4) + body


def cube(m, shape):
    """Counts of the map m."""
    rng = np.random.default_rng(m["seed"])
    h, w, c = shape
    a = rng.poisson(m["mean"], size=shape)
    a[rng.random(shape) < m["sparse"]] = 0
    if m["peak"]:
        a[rng.integers(0, h), rng.integers(0, w), rng.integers(0, c)] = m["peak"]
    if m["last"]:
        a[..., -m["last"] :] = 0
    return a


def stream(m, a, marks=None):
    """marks: filled with the positions of the headers of lines and pixels."""
    marks = [] if marks is None else marks
    h, w, c = a.shape
    out = struct.pack("<II", h, w).ljust(0x1A0, b"\1")
    rng = np.random.default_rng(m["seed"] + 1)
    for y in range(h):
        px = [x for x in range(w) if a[y, x].any() or rng.integers(0, 2)]
        marks.append((len(out), 4))
        out += struct.pack("<I", len(px))
        for x in px:
            marks.append((len(out), 22))
            kind, extra, trim = m["packing"][rng.integers(0, len(m["packing"]))]
            out += pixel(x, a[y, x], (kind, extra, trim, m["seed"] + 100 * y + x), c)
    return out


def block_size(cut, marks):
    """Size of blocks of which one ends at (or inside) a header of the stream."""
    where, inside, kind = cut
    sel = [m for m in marks if m[1] == kind] or marks
    pos, n = sel[where % len(sel)]
    target = pos + inside % (n + 2) - 1
    k = next((k for k in range(max(1, target // 3000), target // 500 + 1) if target % k == 0), None)
    return None if k is None else target // k


# ---------------------------------------------------------------- XML


def node(tag, content, **attr):
    a = "".join(f" {k}={quoteattr(v)}" for k, v in attr.items() if v is not None)
    if isinstance(content, dict):
        content = "".join(node(k, v) for k, v in content.items())
    elif not isinstance(content, str) or not content.startswith("<"):
        content = escape(str(content))
    return f"<{tag}{a}>{content}</{tag}>"


def instance(kind, content, name=None):
    return node("ClassInstance", content, Type=kind, Name=name)


def spectrum_xml(s, counts, name=None, more=""):
    layers = base64.b64encode(zlib.compress(b'<L><Layer0 Atom="5" Thickness="1.3E-2"/><Layer1 Atom="6"/></L>')).decode()
    known = node("TRTKnownHeader", {"Type": "RTHardware", "Size": 137})
    hw = {"Amplification": s["amplification"], "ShapingTime": 20000}
    if s["times"]:
        hw |= {"RealTime": s["times"][0], "LifeTime": s["times"][1]}
    head = instance("TRTSpectrumHardwareHeader", known + "".join(node(k, v) for k, v in hw.items()))
    head += instance("TRTDetectorHeader", node("Type", s["detector"]) + node("Serial", "8279_80") + node("DetLayers", layers))
    if s["xrf"]:
        head += instance("TRTXrfHeader", {"Voltage": s["hv"], "ExcitationAngle": s["elevation"]})
    else:
        e = {"ElevationAngle": s["elevation"]}
        if s["hv"] is not None:
            e = {"PrimaryEnergy": s["hv"]} | e
        if s["azimuth"] is not None:
            e["AzimutAngle"] = s["azimuth"]
        head += instance("TRTESMAHeader", e)
    d, t = s["date"]
    sp = instance("TRTSpectrumHeader", {"Date": d, "Time": t, "ChannelCount": len(counts), "CalibAbs": s["abs"], "CalibLin": s["lin"], "SigmaAbs": 4.5e-4})
    body = node("TRTHeaderedClass", head) + sp + node("Channels", ",".join(map(str, counts))) + more
    return instance("TRTSpectrum", body, name)


def image_xml(im, name=None, more=""):
    h, w = im["shape"]
    planes = ""
    for i, p in enumerate(im["planes"]):
        a = plane(im, p)
        desc = node("Description", p["title"]) if p["title"] else ""
        planes += node(f"Plane{i}", desc + node("LineCounter", ",".join(["1"] * h)) + node("Data", base64.b64encode(a.tobytes()).decode()) + node("Size", a.nbytes))
    return instance("TRTImageData", "<TRTHeaderedClass/>" + node("ItemSize", im["item"]) + node("Width", w) + node("Height", h) + node("PlaneCount", len(im["planes"])) + planes + more, name)


def plane(im, p):
    a = gen.make_array((f"<u{im['item']}", tuple(im["shape"]), "random", p["seed"]))
    return a * 0 if p["empty"] else a


def commas(xml):
    """Numbers with decimal commas, as written on Windows of some countries."""
    import re

    return re.sub(r"(>-?\d+)\.(\d+(?:[Ee]-?\d+)?<)", r"\1,\2", xml)


def header_xml(c, counts):
    sem = {k: v for k, v in c["sem"].items()}
    xml = node("Header", {"Date": c["date"][0], "Time": c["date"][1], "FileVersion": c["version"]})
    xml += instance("TRTSEMData", sem)
    xml += instance("TRTSEMStageData", c["stage"] or {"State": 7936})
    xml += instance("TRTDSPConfiguration", c["dsp"])
    other = instance("TRTImageData", "<TRTHeaderedClass/>" + node("ItemSize", 1), "Counter")
    main = image_xml(c["image"])
    xml += other + main if c["counter_first"] else main + other
    cont = ""
    if c["elements"] is not None:
        regions = "".join(instance("TRTSpectrumRegion", {"Element": 6} | ({"Line": l} if l else {}) | {"Energy": 0.277}, e) for e, l in c["elements"])
        cont = instance(
            "TRTContainerClass",
            node("ChildClassInstances", instance("TRTElementInformationList", "<TRTPSEElementList/>" + instance("TRTSpectrumRegionList", node("ChildClassInstances", regions), "Regions"), "Element information")),
            c["name"],
        )
    if c["overview"]:
        o = c["overview"]
        mark = ""
        if o["rect"]:
            l, t, r, b = o["rect"]
            el = node("TRTOverlayElement", node("FixedSize", 0) + node("Rect", {"Left": l, "Top": t, "Right": r, "Bottom": b}))
            mark = node("ChildClassInstances", instance("TRTMapOverlayElement", node("TRTSolidOverlayElement", node("TRTBasicLineOverlayElement", el)), "Map"))
        cont += instance("TRTContainerClass", node("ChildClassInstances", instance("TRTContainerClass", node("ChildClassInstances", image_xml(o, None, mark)), "OverviewImages")), "x")
    xml += cont
    if c["pad"]:
        xml += "<!-- " + base64.b64encode(np.random.default_rng(c["order"]).bytes(c["pad"])).decode() + " -->"
    xml += node("LineCounter", ",".join(map(str, c["lines"]))) + node("ChCount", len(counts[0])) + node("DetectorCount", len(counts))
    for i, (m, n) in enumerate(zip(c["maps"], counts)):
        xml += node(f"SpectrumData{m['index']}", spectrum_xml(m["spectrum"], n))
    xml = '<?xml version="1.0" encoding="WINDOWS-1252" standalone="yes"?>' + node("TRTSpectrumDatabase", "<RTHeader/>" + instance("TRTSpectrumDatabase", xml, c["name"]))
    if c["commas"]:
        xml = commas(xml)
    return xml.encode("cp1252")


# ---------------------------------------------------------------- cases

number = st.sampled_from([0, 1, 2.5, 35, 45.25, 0.001, 20, 12.75])
title = st.sampled_from(["BSE", "SE", "AsB", "Ring µ", "a <b> & c"])
dates = st.tuples(st.dates(), st.times()).map(lambda d: (f"{d[0].day}.{d[0].month}.{d[0].year:04d}", f"{d[1].hour}:{d[1].minute}:{d[1].second}"))
LINES = [None, "K", "KA", "KB1", "L", "LA", "La", "MA", "Kb"]


@st.composite
def spectra(draw, channels):
    lin = draw(st.sampled_from([0.005, 0.01, 0.02]))
    return dict(
        amplification=lin * channels * 1000,
        times=draw(st.one_of(st.none(), st.tuples(st.integers(1, 10**6), st.integers(1, 10**6)))),
        detector=draw(st.sampled_from(["XFlash 6|30", "SDD", "X & Y"])),
        hv=draw(st.sampled_from([5, 15, 20, 200.0, 80, 0.5])),
        xrf=draw(st.integers(0, 5)) == 0,
        elevation=draw(st.sampled_from([35, 40.5, 18])),
        azimuth=draw(st.sampled_from([None, 45, 12.5])),
        date=draw(dates),
        abs=draw(st.sampled_from([-0.96, 0, -0.475, 0.02])),
        lin=lin,
    )


planes = st.lists(st.fixed_dictionaries(dict(title=st.one_of(st.none(), title), seed=gen.seeds, empty=st.sampled_from([False, False, False, True]))), max_size=3)


@st.composite
def cases(draw):
    h, w = draw(st.integers(1, 5)), draw(st.integers(1, 6))
    channels = draw(st.sampled_from([16, 40, 100, 300, 1024]))
    n = draw(st.sampled_from([1, 1, 1, 2]))
    idx = sorted(draw(st.lists(st.integers(0, 4), min_size=n, max_size=n, unique=True)))
    peak = draw(st.sampled_from([0, 300, 70_000, 200_000]))
    maps = [
        dict(
            index=i,
            seed=draw(gen.seeds),
            mean=draw(st.sampled_from([0.1, 0.5, 3, 40])),
            sparse=draw(st.sampled_from([0.0, 0.5, 0.9, 1.0])),
            peak=peak,
            last=draw(st.sampled_from([0, 1, 7])),
            packing=draw(st.lists(st.tuples(st.sampled_from([0, 1, 2, 2, 5]), st.integers(0, 6), st.booleans()), min_size=1, max_size=3)),
            spectrum=draw(spectra(channels)),
        )
        for i in idx
    ]
    c = dict(
        shape=[h, w, channels],
        maps=maps,
        version=draw(st.sampled_from([1, 2])),
        chunk=draw(st.sampled_from([4096, 4096, 3657, 1600, 16384])),
        compress=draw(st.sampled_from([0, 0, 4000, 1 << 16])),
        cut=draw(st.one_of(st.none(), st.tuples(st.integers(0, 30), st.integers(0, 30), st.sampled_from([4, 22])))),
        order=draw(gen.seeds),
        dirs_first=draw(st.booleans()),
        others=draw(st.integers(0, 12)),
        date=draw(dates),
        name=draw(st.sampled_from(["Map data 40", "Zoé & co", None])),
        sem=draw(st.fixed_dictionaries(dict(HV=st.sampled_from([10, 15.0, 200, 29.5])), optional=dict(WD=number, Mag=st.sampled_from([500, 54.679]), Flags=st.just(16776960)))),
        stage=draw(st.dictionaries(st.sampled_from(["X", "Y", "Z", "Tilt", "Rotation"]), number, min_size=0, max_size=5)),
        dsp=dict(LineAverage=draw(st.integers(1, 4)), PixelAverage=draw(st.integers(1, 8)), PixelTime=draw(st.sampled_from([1, 16, 2.5])), ChannelName0="BSE"),
        lines=draw(st.lists(st.integers(1, 20), min_size=h, max_size=h)),
        image=dict(shape=[h, w], item=draw(st.sampled_from([1, 2, 4])), planes=draw(planes)),
        counter_first=draw(st.booleans()),
        elements=draw(st.one_of(st.none(), st.lists(st.tuples(st.sampled_from(["C", "O", "Al", "Fe", "U", "Cu"]), st.sampled_from(LINES)), max_size=4, unique_by=lambda x: x[0]))),
        commas=draw(st.booleans()),
        select=draw(st.sampled_from([None, None, "image", "spectrum_image"])),
        index=draw(st.sampled_from([None, None, "all", *idx])),
        downsample=draw(st.sampled_from([1, 1, 2, 3])),
        cutoff=draw(st.sampled_from([None, None, "zealous", "auto", 0.1, 1, 0.25, 4.0])),
        instrument=draw(st.sampled_from([None, None, "TEM", "SEM"])),
        lazy=draw(st.booleans()),
    )
    if draw(st.integers(0, 3)):
        c["sem"] |= dict(DX=draw(st.sampled_from([515.887176865565, 1.5])), DY=draw(st.sampled_from([515.887176865564, 0.75])))
    c["overview"] = None
    if c["version"] == 2 and draw(st.booleans()):
        c["overview"] = dict(shape=[draw(st.integers(1, 5)), draw(st.integers(1, 5))], item=1, planes=draw(planes), rect=None)
        if draw(st.booleans()):
            q = [st.floats(0, 500), st.integers(0, 500)][draw(st.integers(0, 1))]
            (l, r), (t, b) = sorted((draw(q), draw(q))), sorted((draw(q), draw(q)))
            c["overview"]["rect"] = [l, t, r, b]
    # a header of many chunks: the table of its chunks takes several chunks too
    c["pad"] = draw(st.sampled_from([0, 0, 0, 60_000, 70_000, 300_000]))
    if c["pad"]:
        c["chunk"] = draw(st.sampled_from([544, 560, 1000, 1600]))
    return c


def hv_mode(hv):
    return "TEM" if hv is not None and hv > 30 else "SEM"


def iso(d):
    day, mon, year = d[0].split(".")
    return f"{int(year):04d}-{int(mon):02d}-{int(day):02d}", ":".join(f"{int(x):02d}" for x in d[1].split(":"))


def meta(ctx, m, exp):
    for k, v in exp.items():
        g = sigs.get(m, k)
        ctx.expect(gen.close(g, v) if isinstance(v, float) else gen.deep_diff(g, v, dtype=False) is None, f"metadata-{k.split('.')[-1]}", lambda: f"{k}: {g!r} instead of {v!r}")


def detector(s, root):
    e = {f"{root}.Detector.EDS.elevation_angle": s["elevation"], f"{root}.Detector.EDS.detector_type": s["detector"]}
    if s["azimuth"] is not None and not s["xrf"]:
        e[f"{root}.Detector.EDS.azimuth_angle"] = s["azimuth"]
    if s["times"]:
        e[f"{root}.Detector.EDS.live_time"] = s["times"][1] / 1000
        e[f"{root}.Detector.EDS.real_time"] = s["times"][0] / 1000
    return e | {f"{root}.beam_energy": s["hv"]}


def line_name(x):
    if x is None:
        return "Ka"
    return (x + "a" if len(x) == 1 else x[:2]).capitalize()


def reduce(a, d):
    h, w, c = a.shape
    out = np.zeros((-(-h // d), -(-w // d), c), "i8")
    for y in range(h):
        for x in range(w):
            out[y // d, x // d] += a[y, x]
    return out


def check(c, ctx):
    h, w, channels = c["shape"]
    d = c["downsample"]
    cubes = [cube(m, c["shape"]) for m in c["maps"]]
    counts = []
    for a in cubes:
        total = a.sum(axis=(0, 1))
        # K-C19-1: the reference peak makes the type of the data large enough
        total[0] = max(int(total[0]), (int(reduce(a, d).max()) // (2 * d * d) + 1) * h * w)
        counts.append([int(v) for v in total])
    files = {"EDSDatabase/HeaderData": header_xml(c, counts)}
    marks = []
    for m, a in zip(c["maps"], cubes):
        files[f"EDSDatabase/SpectrumData{m['index']}"] = stream(m, a, marks if m is c["maps"][0] else None)
    chunk, compress = c["chunk"], c["compress"]
    if c["cut"]:
        size = block_size(c["cut"], marks)
        if size and compress:
            compress = size
        elif size:
            # a longer table of chunks is only defined for whole entries
            if size % 4 == 0 or max(map(len, files.values())) <= size * (size // 4):
                chunk = size + 32
        ctx.label("block ends in a header" if size else "no such block")
    for i in range(c["others"]):
        files[f"EBSDData/File{i}"] = b"x" * (i * 700 + 1)
    p = ctx.path("a.bcf")
    with open(p, "wb") as f:
        f.write(sfs(files, chunk, compress, c["order"], c["dirs_first"]))
    kw = dict(lazy=c["lazy"])
    for k in ("select", "index", "instrument"):
        if c[k] is not None:
            kw[{"select": "select_type"}.get(k, k)] = c[k]
    if d > 1:
        kw["downsample"] = d
    if c["cutoff"] is not None:
        kw["cutoff_at_kV"] = c["cutoff"]
    ctx.label(f"select {c['select']}", "compressed" if c["compress"] else "plain", f"downsample {d}", f"cutoff {c['cutoff']}")
    if c["pad"]:
        ctx.label("long table of chunks" if c["pad"] > 128 * 512 or c["chunk"] > 600 else "short table of chunks")
    ctx.nontrivial(h * w > 1 and c["select"] != "image")
    for which in ("cython", "python"):
        reader = module(which)
        rs = ctx.sut(reader, p, **kw)
        judge(c, ctx, which, rs, cubes, counts)


def judge(c, ctx, which, rs, cubes, counts):
    h, w, channels = c["shape"]
    d = c["downsample"]
    images = [(c["image"], q) for q in c["image"]["planes"] if plane(c["image"], q).any()]
    if c["overview"]:
        images += [(c["overview"], q) for q in c["overview"]["planes"] if plane(c["overview"], q).any()]
    if c["select"] == "spectrum_image":
        images = []
    maps = list(range(len(cubes)))
    if c["select"] == "image":
        maps = []
    elif c["index"] is None:
        maps = maps[:1]
    elif c["index"] != "all":
        maps = [i for i in maps if c["maps"][i]["index"] == c["index"]]
    ctx.expect(len(rs) == len(images) + len(maps), "count", f"{which}: {len(rs)} signals, {len(images)} images and {len(maps)} maps expected")
    mode = c["instrument"] or hv_mode(c["sem"]["HV"])
    units = "µm" if "DX" in c["sem"] else "pix"
    dx, dy = c["sem"].get("DX", 1.0), c["sem"].get("DY", 1.0)
    root = f"Acquisition_instrument.{mode}"
    name = c["name"] or "Undefined"
    common = {f"{root}.beam_energy": c["sem"]["HV"], "Sample.name": name, "General.original_filename": "a.bcf"}
    if "Mag" in c["sem"]:
        common[f"{root}.magnification"] = c["sem"]["Mag"]
    stage = {"X": "x", "Y": "y", "Z": "z", "Tilt": "tilt_alpha", "Rotation": "rotation"}
    for r, (im, q) in zip(rs, images):
        sigs.check_structure(ctx, r)
        ctx.expect(gen.arrays_equal(np.asarray(r["data"]), plane(im, q)), "image", lambda: f"{gen.short(r['data'])} instead of {gen.short(plane(im, q))}")
        for a, n, s, sc in zip(r["axes"], ("height", "width"), im["shape"], (dy, dx)):
            ctx.expect(a["name"] == n and a["size"] == s and gen.close(a["scale"], sc) and a["units"] == units and a["offset"] == 0, "image-axis", f"{a}")
        meta(ctx, r["metadata"], common | ({"General.title": q["title"]} if q["title"] else {}))
        rect = im.get("rect")
        mark = sigs.get(r["metadata"], "Markers.overview")
        ctx.expect((mark is not None) == bool(rect), "marker", f"{mark} {rect}")
        if rect:
            ctx.label("overview-marker")
            x0, y0, x1, y1 = rect[0] * dx, rect[1] * dy, rect[2] * dx, rect[3] * dy
            want = [(x0 + x1) / 2, (y0 + y1) / 2, x1 - x0, y1 - y0]
            got = [*np.ravel(mark["offsets"]), *np.ravel(mark["widths"]), *np.ravel(mark["heights"])]
            ctx.expect(mark["class"] == "Rectangles" and len(got) == 4 and all(gen.close(float(g), v, 1e-9, 1e-9 * 500 * max(dx, dy)) for g, v in zip(got, want)), "marker", f"{mark} instead of {want}")
        mapped = sigs.mapped(r)
        for k, v in c["stage"].items():
            ctx.expect(gen.close(sigs.get(mapped, f"{root}.Stage.{stage[k]}"), v), "stage", lambda: f"{k}: {mapped}")
    for r, i in zip(rs[len(images) :], maps):
        sigs.check_structure(ctx, r)
        m, a, s = c["maps"][i], cubes[i], c["maps"][i]["spectrum"]
        n = channels
        if c["cutoff"] == "zealous":
            n = int(np.nonzero(counts[i])[0][-1]) + 1
        elif c["cutoff"] == "auto":
            hv = c["sem"]["HV"]
            if 0 < hv < s["amplification"] / 1000:
                n = round((hv - s["abs"]) / s["lin"])
        elif c["cutoff"] is not None:
            n = round((c["cutoff"] - s["abs"]) / s["lin"])
        e = reduce(a, d)
        exp = np.zeros((*e.shape[:2], n), "i8")
        k = min(n, channels)
        exp[..., :k] = e[..., :k]
        data = r["data"]
        ctx.expect(hasattr(data, "__dask_keys__") == c["lazy"], "lazy", f"{type(data)}")
        v = np.asarray(data)
        ctx.expect(v.dtype.kind == "u" and v.dtype == data.dtype, "dtype", f"{which}: {v.dtype} {data.dtype}")
        ctx.expect(v.shape == exp.shape, "map-shape", f"{which}: {v.shape} instead of {exp.shape}")
        ctx.expect(np.array_equal(v, exp), "map", lambda: f"{which}: {gen.short(np.argwhere(v != exp)[:5].tolist())} {gen.short(v[v != exp][:5])} instead of {gen.short(exp[v != exp][:5])}")
        for ax, nm, sz, off, sc, u in zip(r["axes"], ("height", "width", "Energy"), exp.shape, (0, 0, s["abs"]), (dy * d, dx * d, s["lin"]), (units, units, "keV")):
            ok = ax["name"] == nm and ax["size"] == sz and gen.close(ax["offset"], off) and gen.close(ax["scale"], sc) and ax["units"] == u and ax["navigate"] == (nm != "Energy")
            ctx.expect(ok, "map-axis", f"{ax} instead of {nm} {sz} {off} {sc} {u}")
        date, time = iso(c["date"])
        el = dict(c["elements"] or [])
        real = sum(c["lines"]) * c["dsp"]["LineAverage"] * c["dsp"]["PixelAverage"] * c["dsp"]["PixelTime"] * w * 1e-6
        e = common | detector(s, root) | {
            f"{root}.Detector.EDS.real_time": float(real),
            "General.title": "EDX",
            "General.date": date,
            "General.time": time,
            "Sample.elements": sorted(el),
            "Sample.xray_lines": sorted(f"{x}_{line_name(l)}" for x, l in el.items()),
            "Signal.signal_type": f"EDS_{mode}",
        }
        meta(ctx, r["metadata"], e)
        mapped = sigs.mapped(r)
        for k, v in c["stage"].items():
            ctx.expect(gen.close(sigs.get(mapped, f"{root}.Stage.{stage[k]}"), v), "stage", lambda: f"{k}: {mapped}")
        o = r["original_metadata"]
        for part, want in (("Microscope", c["sem"]), ("DSP Configuration", c["dsp"]), ("Stage", c["stage"]), ("Spectrum", {"CalibAbs": s["abs"], "CalibLin": s["lin"]}), ("Hardware", {"Amplification": s["amplification"]}), ("Detector", {"Type": s["detector"]})):
            for k, v in want.items():
                g = o[part].get(k)
                ctx.expect(gen.close(g, v) if isinstance(v, (int, float)) else g == v, "original", lambda: f"{part}.{k}: {g!r} instead of {v!r}")


# ---------------------------------------------------------------- spx


@st.composite
def spx(draw):
    n = draw(st.sampled_from([2, 16, 300]))
    return dict(
        n=n,
        seed=draw(gen.seeds),
        big=draw(st.booleans()),
        spectrum=draw(spectra(n)),
        name=draw(st.sampled_from(["Spectrum 1", "Zoé & co", None])),
        elements=draw(st.one_of(st.none(), st.lists(st.sampled_from(["C", "O", "Al", "Fe", "Cu"]), min_size=1, max_size=4, unique=True))),
        results=draw(st.one_of(st.none(), st.dictionaries(st.sampled_from(["Atom", "MassPercent", "Sigma"]), number, min_size=1))),
    )


def check_spx(c, ctx):
    a = np.random.default_rng(c["seed"]).integers(0, 2**63 if c["big"] else 100, c["n"], dtype="u8")
    s = c["spectrum"]
    more = ""
    if c["results"]:
        more += instance("TRTResult", c["results"])
    if c["elements"]:
        more += instance("TRTPSEElementList", node("ChildClassInstances", "".join(instance("TRTPSEElement", {"Element": 6}, e) for e in c["elements"])), "x")
    xml = '<?xml version="1.0" encoding="WINDOWS-1252" standalone="yes"?>' + node("TRTSpectrum", "<RTHeader/>" + spectrum_xml(s, a.tolist(), c["name"], more))
    p = ctx.path("a.spx")
    with open(p, "wb") as f:
        f.write(xml.encode("cp1252"))
    (r,) = ctx.sut(module("cython"), p)
    sigs.check_structure(ctx, r)
    ctx.nontrivial()
    ctx.label("elements" if c["elements"] else "no elements")
    ctx.expect(gen.arrays_equal(np.asarray(r["data"]), a), "data", lambda: f"{gen.short(r['data'])} instead of {gen.short(a)}")
    (ax,) = r["axes"]
    ctx.expect(ax["name"] == "Energy" and ax["size"] == c["n"] and gen.close(ax["offset"], s["abs"]) and gen.close(ax["scale"], s["lin"]) and ax["units"] == "keV", "axis", f"{ax}")
    mode = hv_mode(s["hv"])
    date, time = iso(s["date"])
    e = detector(s, f"Acquisition_instrument.{mode}") | {
        "General.original_filename": "a.spx",
        "General.title": "EDX",
        "General.date": date,
        "General.time": time,
        "Signal.signal_type": f"EDS_{mode}",
    }
    if c["name"]:
        e["Sample.name"] = c["name"]
    if c["elements"]:
        e["Sample.elements"] = c["elements"]
    meta(ctx, r["metadata"], e)
    if c["results"]:
        for k, v in c["results"].items():
            ctx.expect(gen.close(r["original_metadata"]["Results"].get(k), v), "results", f"{r['original_metadata']['Results']}")


def probe_depth(ctx):
    """1000 counts in one of 400 pixels."""
    c = dict(
        shape=[20, 20, 16], version=1, chunk=4096, pad=0, compress=0, cut=None, order=0, dirs_first=True, others=0, date=("1.1.2020", "1:1:1"), name="x", sem=dict(HV=15), stage={},
        dsp=dict(LineAverage=1, PixelAverage=1, PixelTime=1), lines=[1] * 20, image=dict(shape=[20, 20], item=1, planes=[]), counter_first=False, elements=None, commas=False, overview=None,
        maps=[dict(index=0, seed=0, packing=[(2, 0, False)], spectrum=dict(amplification=20000, times=None, detector="x", hv=15, xrf=False, elevation=35, azimuth=None, date=("1.1.2020", "1:1:1"), abs=0, lin=0.01))],
    )  # fmt: skip
    a = np.zeros(c["shape"], int)
    a[3, 4, 5] = 1000
    files = {"EDSDatabase/HeaderData": header_xml(c, [a.sum(axis=(0, 1)).tolist()]), "EDSDatabase/SpectrumData0": stream(c["maps"][0], a)}
    with open(ctx.path("a.bcf"), "wb") as f:
        f.write(sfs(files, 4096, 0, 0, True))
    r = ctx.sut(module("cython"), ctx.path("a.bcf"))
    ctx.expect(int(r[-1]["data"].max()) == 1000, "depth", f"{r[-1]['data'].dtype} {r[-1]['data'].max()}")


PROP = Prop(
    "C19",
    "a map of several pixels, or a spectrum",
    [
        Sub("bcf", cases, check, quick=500, shards=5, guard=True),
        Sub("spx", spx, check_spx, quick=200),
    ],
    probes={"K-C19-1": probe_depth},
)

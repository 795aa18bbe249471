"""C20: JEOL Analysis Station files (pts, img/map, eds, asw) by an independent encoder."""

import datetime
import os
import struct

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Reject, Sub

TYPES = {"B": 1, "H": 2, "i": 3, "f": 4, "d": 5, "?": 11, "c": 12, "ref": 14}
# other numbers of the same types
TYPES |= {"B'": 6, "H'": 7, "i'": 8, "f'": 9, "d'": 10, "?'": 65553, "?''": 65552}
EPOCH = datetime.datetime(1899, 12, 30)
f4 = st.floats(min_value=0.5, max_value=1e5, width=32)
stamp = st.datetimes(min_value=datetime.datetime(1990, 1, 1), max_value=datetime.datetime(2060, 1, 1)).map(lambda d: d.replace(microsecond=0))


def days(d):
    """Days since the epoch, so that the seconds come out exactly."""
    return (d - EPOCH) / datetime.timedelta(days=1)


def node(key, typ=None, value=b"", children=()):
    k = key.encode() + b"\0"
    if typ is None:
        t, v = 0, b""
    elif typ == "c":
        t, v = 12, value.encode() + b"\0"
    else:
        t = TYPES[typ]
        v = struct.pack(f"<{len(value)}{'H' if typ == 'ref' else typ[0]}", *value)
    return b"\1" + struct.pack("<i", len(k)) + k + struct.pack("<ii", t, len(v)) + v + b"".join(children) + b"\xff"


def tree(d):
    """dict -> bytes; leaves are (type, value)."""
    out = b""
    for k, v in d.items():
        if isinstance(v, dict):
            key, page = k.split("_") if k[:-1].endswith("PAGE") or "PAGE" in k else (k, None)
            kids = [tree(v)]
            out += node(key, "c", page, kids) if page else node(key, None, b"", kids)
        else:
            out += node(k, v[0], v[1])
    return out


def plain(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out[k] = plain(v)
        elif v[0] == "c":
            out[k] = v[1]
        elif v[0] == "ref":
            out[k] = {"index": v[1][0]}
        else:
            a = [np.float32(x) for x in v[1]] if v[0][0] == "f" else list(v[1])
            out[k] = a[0] if len(a) == 1 else np.array(a)
    return out


def same(a, b, path=""):
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return f"{path}: {gen.short(a)} vs {gen.short(b)}"
        for k in a:
            d = same(a[k], b[k], path + "." + str(k))
            if d:
                return d
        return None
    if isinstance(a, str) or isinstance(b, str):
        return None if a == b else f"{path}: {a!r} vs {b!r}"
    return None if np.array_equal(np.asarray(a), np.asarray(b)) else f"{path}: {a!r} vs {b!r}"


extra = st.dictionaries(
    gen.text(min_size=1, max_size=6, ascii_only=True, blacklist="_").map(str.strip).filter(lambda k: k and "PAGE" not in k and k not in ("Limits", "CountRate", "DeadTime", "Port")),
    st.one_of(
        st.tuples(st.sampled_from(["B", "B'"]), st.lists(st.integers(0, 255), min_size=1, max_size=3)),
        st.tuples(st.sampled_from(["H", "H'"]), st.lists(st.integers(0, 65535), min_size=1, max_size=3)),
        st.tuples(st.sampled_from(["i", "i'"]), st.lists(st.integers(-(2**31), 2**31 - 1), min_size=1, max_size=3)),
        st.tuples(st.sampled_from(["f", "f'"]), st.lists(f4, min_size=1, max_size=3)),
        st.tuples(st.sampled_from(["d", "d'"]), st.lists(gen.floats(), min_size=1, max_size=3)),
        st.tuples(st.sampled_from(["?", "?'", "?''"]), st.lists(st.booleans(), min_size=1, max_size=3)),
        st.tuples(st.just("ref"), st.lists(st.integers(0, 9), min_size=1, max_size=1)),
        st.tuples(st.just("c"), gen.text(min_size=1, max_size=8, blacklist="\0").map(str.strip).filter(bool)),
    ),
    max_size=4,
)

# ---------------------------------------------------------------- pts


@st.composite
def frame(draw, w, h, em, last):
    n = draw(st.integers(0, 12))
    ev = draw(st.lists(st.tuples(st.integers(0, h - 1), st.integers(0, w - 1), st.one_of(st.integers(0, 20), st.integers(0, 4095)), st.integers(1, 3)), min_size=n, max_size=n))
    stop = None
    if last and draw(st.booleans()):
        stop = draw(st.integers(0, w * h - 1))
    return dict(ev=ev, stop=stop, em=draw(gen.seeds) if em else None)


@st.composite
def pts(draw):
    w = draw(st.sampled_from([1, 2, 4, 8, 16]))
    h = draw(st.sampled_from([2, 2, 4, 8, 16]))
    n = draw(st.integers(1, 4))
    em = draw(st.booleans())
    frames = [draw(frame(w, h, em, i == n - 1)) for i in range(n)]
    sum_frames = draw(st.booleans())
    ds = draw(st.sampled_from([1, 1, 1, 2, 4, "pair"]))
    if ds == "pair":
        ds = (draw(st.sampled_from([d for d in (1, 2, 4) if w % d == 0])), draw(st.sampled_from([d for d in (1, 2, 4) if h % d == 0])))
    elif w % ds or h % ds:
        ds = 1
    fl = draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, n + 2), min_size=1, max_size=4)))
    shifts = None
    if draw(st.integers(0, 2)) == 0:
        d0, d1 = (ds, ds) if isinstance(ds, int) else ds
        k = draw(st.sampled_from([2, 3]))
        my, mx = min(3, (h // d1 - 1) // 2), min(3, (w // d0 - 1) // 2)
        shifts = [[draw(st.integers(-my, my)), draw(st.integers(-mx, mx)), draw(st.integers(-3, 3))][:k] for _ in range(draw(st.integers(n, n + 3)))]
    return dict(
        w=w,
        h=h,
        frames=frames,
        sweep=n - draw(st.integers(0, 1)),
        sum_frames=sum_frames,
        ds=ds,
        fl=fl,
        shifts=shifts,
        shifts_array=draw(st.booleans()),
        rebin=draw(st.sampled_from([1, 2, 64, 512, 2048])),
        cutoff=draw(st.sampled_from([None, None, 0.1, 1.5])),
        valid=draw(st.booleans()),
        dtype=draw(st.sampled_from(["uint8", "uint16", "int32"])),
        coef=(draw(st.sampled_from([0.01, 0.02, 0.00999866])), draw(st.sampled_from([0.0, -0.001])), draw(st.integers(0, 96))),
        hv=draw(st.sampled_from([5.0, 15.0, 30.0, 200.0])),
        mag=draw(f4),
        scan=draw(f4),
        dwell=draw(st.sampled_from([0.1, 5.0])),
        det=[draw(st.floats(-90, 90)) for _ in range(3)],
        when=draw(stamp),
        extra=draw(extra),
        # put an event as hot as the data type allows
        hot=draw(st.sampled_from([0] * 9 + [254, 260])),
    )


def em_image(c, f):
    return np.random.default_rng(f["em"]).integers(0, 4096, (c["h"], c["w"]))


def stream(c):
    """The event stream, and per frame: events, read pixels, complete or not."""
    w, h = c["w"], c["h"]
    sx, sy = 4096 // w, 4096 // h
    raw, model = [], []
    for fi, f in enumerate(c["frames"]):
        img = em_image(c, f) if f["em"] is not None else None
        ev = {}
        for y, x, z, k in f["ev"]:
            ev.setdefault((y, x), []).extend([z] * k)
        if c["hot"] and fi == 0:
            ev.setdefault((0, 0), []).extend([7] * c["hot"])
        stop = w * h if f["stop"] is None else f["stop"] + 1
        seen, pix = [], np.zeros((h, w), int)
        ly = lx = -1
        start = len(raw)
        for y in range(h):
            if y * w >= stop:
                break
            raw.append(0x9000 | (y * sy))
            ly = y
            for x in range(w):
                if y * w + x >= stop:
                    break
                zs = ev.get((y, x), [])
                if img is None and not zs:
                    continue
                raw.append(0x8000 | (x * sx))
                lx = x
                if img is not None:
                    pix[y, x] = img[y, x]
                    raw.append(0xA000 | int(img[y, x]))
                for z in zs:
                    raw.append(0xB000 | z)
                    seen.append((y, x, z))
                if (x + y) % 2:
                    raw += [0x6000, 0x7000]
        model.append(dict(events=seen, em=pix, has_em=img is not None, last=(ly, lx), start=start, stop=stop))
    return np.array(raw, "<u2"), model


def pts_header(c):
    h = {
        "PTTD Data": {
            "AnalyzableMap MeasData": {
                "Meas Cond": {"Tpl": ("c", "T3"), "Pixels": ("c", f"{c['w']}x{c['h']}")},
                "MeasCond": {"AccKV": ("d", [c["hv"]]), "Mag": ("f", [c["mag"]])},
                "Doc": {
                    "RealTime": ("d", [12.5]),
                    "DwellTime(msec)": ("d", [c["dwell"]]),
                    "Sweep": ("H", [c["sweep"]]),
                    "CoefA": ("d", [c["coef"][0]]),
                    "CoefB": ("d", [c["coef"][1]]),
                },
            }
        },
        "PTTD Param": {
            "Params": {
                "PARAMPAGE0_SEM": {
                    "ScanSize": ("f", [c["scan"]]),
                    "DirAng": ("d", [c["det"][0]]),
                    "DetT": ("c", "EX-230"),
                    "ElevAng": ("d", [c["det"][1]]),
                    "MnKaRES": ("d", [c["det"][2]]),
                },
                "PARAMPAGE1_EDXRF": {"Tpl": {"T3": {"DigZ": ("H", [c["coef"][2]])}}},
            }
        },
    }
    h["More"] = dict(c["extra"])
    return h


def pts_file(c, path):
    raw, model = stream(c)
    head = b"\0" * 12 + tree(pts_header(c)) + b"\xff"
    pos = 512
    dpos = pos + len(head) + 37
    out = struct.pack("<I", 304) + b"PTTD\0\0\0\0" + struct.pack("<6I", 131072, 1, pos, len(head), dpos, 2 * len(raw))
    out += b"\0" * 128 + b"\0" * 132 + struct.pack("<d", days(c["when"]))
    out = out.ljust(pos, b"\0") + head
    out = out.ljust(dpos, b"\0") + raw.tobytes()
    with open(path, "wb") as f:
        f.write(out)
    return model


def check_pts(c, ctx):
    from rsciio.jeol import file_reader

    p = ctx.path("a.pts")
    model = pts_file(c, p)
    n = len(model)
    dx, dy = (c["ds"], c["ds"]) if isinstance(c["ds"], int) else c["ds"]
    w, h = c["w"] // dx, c["h"] // dy
    off = c["coef"][1] - c["coef"][0] * c["coef"][2]
    esc = c["coef"][0] * c["rebin"]
    nch = 4096 // c["rebin"]
    if c["cutoff"] is not None:
        nch = int(np.round((c["cutoff"] - off) / esc))
        if nch < 1:
            nch, c = 4096 // c["rebin"], dict(c, cutoff=None)
    fl = list(range(c["sweep"] + 1)) if c["fl"] is None else c["fl"]
    fl = [f for f in fl if f <= c["sweep"]]
    if c["shifts"] is not None:
        fl = [f for f in fl if f < len(c["shifts"])]
    if not fl:
        c, fl = dict(c, fl=None), list(range(c["sweep"] + 1))
        if c["shifts"] is not None and len(c["shifts"]) <= c["sweep"]:
            c = dict(c, shifts=None)
    sh = np.array([list(s) + [0] * (3 - len(s)) for s in c["shifts"]]) if c["shifts"] is not None else np.zeros((n + 2, 3), int)
    mx, mn = sh[fl].max(axis=0), sh[fl].min(axis=0)
    H, W = h + mn[0] - mx[0], w + mn[1] - mx[1]
    accepted = []
    em_read = False
    for f in fl:
        if f >= n:
            continue
        m = dict(model[f])
        if m["has_em"]:
            # is there any pixel inside of the shifted area
            q = np.array([divmod(k, c["w"]) for k in range(min(m["stop"], c["w"] * c["h"]))])
            q = q // [dy, dx] + sh[f][:2] - mx[:2]
            m["has_em"] = bool(((q >= 0) & (q < [H, W])).all(axis=1).any())
        em_read = em_read or m["has_em"]
        full = m["last"][0] * dy >= 0 and m["last"][0] // dy == h - 1 and (m["last"][1] // dx == w - 1 or not m["has_em"])
        if not full:
            ctx.label("incomplete")
        if full or not c["valid"]:
            accepted.append(f)
    if not accepted:
        raise Reject("no frame to read")
    data = np.zeros((len(accepted), H, W, nch), int)
    em = np.zeros((len(accepted), H, W), int)
    for i, f in enumerate(accepted):
        s = sh[f] - [mx[0], mx[1], 0]
        for y, x, z in model[f]["events"]:
            q = (y // dy + s[0], x // dx + s[1], z // c["rebin"] + s[2])
            if 0 <= q[0] < H and 0 <= q[1] < W and 0 <= q[2] < nch:
                data[(i,) + q] += 1
        if model[f]["has_em"]:
            for y in range(c["h"]):
                for x in range(c["w"]):
                    a, b = y // dy + s[0], x // dx + s[1]
                    if 0 <= a < H and 0 <= b < W:
                        em[i, a, b] += model[f]["em"][y, x]
    if c["sum_frames"]:
        data, em = data.sum(axis=0), em.sum(axis=0)
    ctx.label(f"sum{c['sum_frames']}", "em" if em_read else "no-em", "square" if c["w"] == c["h"] else "oblong")
    ctx.label(*(["shifts"] if c["shifts"] else []), *(["frames"] if c["fl"] else []))
    ctx.nontrivial(data.sum() > 0)
    if em.size and em.max() > 65535 and (not c["sum_frames"] or c["sweep"] < 16):
        return  # too bright for the image
    kw = dict(rebin_energy=c["rebin"], sum_frames=c["sum_frames"], SI_dtype=np.dtype(c["dtype"]).type, cutoff_at_kV=c["cutoff"], downsample=c["ds"], only_valid_data=c["valid"], read_em_image=True, frame_list=c["fl"])
    mk = (lambda: None) if c["shifts"] is None else (lambda: np.array(c["shifts"], "i2") if c["shifts_array"] else [list(s) for s in c["shifts"]])
    # every event counted, also those of a frame that is taken back afterwards
    top = int(data.max()) if data.size else 0
    lim = np.iinfo(c["dtype"]).max
    start = None
    for lazy in (False, True):
        shifts = mk()
        if not lazy and (top >= lim or c["hot"] > 250 and c["dtype"] == "uint8"):
            # too many counts for the data type: an error or the exact values
            try:
                ctx.started = True
                rs = file_reader(p, lazy=False, frame_shifts=shifts, **kw)
            except ValueError as e:
                ctx.expect("range" in str(e), "overflow-error", str(e))
                ctx.expect(c["hot"] > 0, "overflow-spurious", str(e))
                ctx.label("overflow")
                continue
        else:
            rs = ctx.sut(file_reader, p, lazy=lazy, frame_shifts=shifts, frame_start_index=start, **kw)
        if shifts is not None:
            ctx.expect(np.array_equal(np.asarray(shifts), np.asarray(c["shifts"])), "argument-changed", f"frame_shifts {c['shifts']} became {shifts}")
        ctx.expect(len(rs) == 1 + em_read, "count", f"{len(rs)} signals")
        for r in rs:
            sigs.check_structure(ctx, r)
        r = rs[0]
        ctx.expect(hasattr(r["data"], "__dask_keys__") == lazy, "lazy-type", f"{type(r['data'])}")
        got = r["data"].compute() if lazy else r["data"]
        got = got.todense() if hasattr(got, "todense") else got
        ctx.expect(got.shape == data.shape, "shape", f"{got.shape} expected {data.shape}")
        ctx.expect(np.array_equal(got, data), "counts", lambda: f"lazy={lazy}: differ at {np.argwhere(got != data)[:4].tolist()}, total {got.sum()} expected {data.sum()}")
        if not lazy:
            ctx.expect(got.dtype == c["dtype"], "dtype", f"{got.dtype}")
        if em_read:
            ctx.expect(rs[1]["data"].shape == em.shape, "em-shape", f"{rs[1]['data'].shape} expected {em.shape}")
            ctx.expect(np.array_equal(rs[1]["data"], em), "em-image", lambda: f"lazy={lazy}: {gen.short(rs[1]['data'], 200)} expected {gen.short(em, 200)}")
        sc = np.float64(np.float32(c["scan"])) / np.float64(np.float32(c["mag"])) * 1e3
        ax = [
            dict(name="y", size=H, scale=sc / h, offset=mx[0] * sc / h, units="µm", navigate=True, _tol=(1e-5, 1e-9)),
            dict(name="x", size=W, scale=sc / w, offset=mx[1] * sc / w, units="µm", navigate=True, _tol=(1e-5, 1e-9)),
        ]
        if not c["sum_frames"]:
            ax.insert(0, dict(name="Frame", size=len(accepted), scale=c["dwell"] * c["w"] * c["h"] / 1e3, offset=0, units="s", navigate=True))
        sigs.check_axes(ctx, r["axes"], ax + [dict(name="Energy", size=nch, offset=off, scale=esc, units="keV", navigate=False, _tol=(1e-9, 1e-12))])
        if em_read:
            sigs.check_axes(ctx, rs[1]["axes"], [{k: v for k, v in a.items() if k != "navigate"} for a in ax])
        md = r["metadata"]
        mode = "SEM" if c["hv"] <= 30 else "TEM"
        exp = {
            f"Acquisition_instrument.{mode}.beam_energy": c["hv"],
            f"Acquisition_instrument.{mode}.magnification": float(np.float32(c["mag"])),
            f"Acquisition_instrument.{mode}.Detector.EDS.azimuth_angle": c["det"][0],
            f"Acquisition_instrument.{mode}.Detector.EDS.elevation_angle": c["det"][1],
            f"Acquisition_instrument.{mode}.Detector.EDS.energy_resolution_MnKa": c["det"][2],
            f"Acquisition_instrument.{mode}.Detector.EDS.detector_type": "EX-230",
            f"Acquisition_instrument.{mode}.Detector.EDS.real_time": 12.5,
            "Signal.signal_type": "EDS_" + mode,
            "Signal.quantity": "X-rays (Counts)",
            "General.original_filename": "a.pts",
            "General.title": "EDS extracted from a.pts",
        }
        for k, v in exp.items():
            g = sigs.get(md, k)
            ctx.expect(g == v, "metadata", f"{k}: {g!r} expected {v!r}")
        check_date(ctx, md, c["when"])
        om = dict(r["original_metadata"])
        index = om.pop("jeol_pts_frame_start_index")
        om.pop("jeol_pts_frame_origin")
        om.pop("jeol_pts_frame_shifts")
        d = same(om, plain(pts_header(c)))
        ctx.expect(d is None, "original-metadata", d)
        for i, s in enumerate(index):
            if s >= 0 and i < n:
                ctx.expect(s == model[i]["start"], "frame-start", f"frame {i} at {s}, not {model[i]['start']}")
        # the index of the first reading speeds up the second one
        start = np.array(index) if c["rebin"] > 2 else None


def check_date(ctx, md, when):
    g = datetime.datetime.fromisoformat(md["General"]["date"] + "T" + md["General"]["time"])
    ctx.expect(abs((g - when).total_seconds()) < 1e-3, "date", f"{g} expected {when}")


# ---------------------------------------------------------------- images


@st.composite
def img(draw):
    w, h = draw(st.integers(1, 9)), draw(st.integers(1, 9))
    return dict(
        w=w,
        h=h + (w * h == 1),
        dt=draw(st.sampled_from("BHif")),
        seed=draw(gen.seeds),
        hv=draw(st.sampled_from([5.0, 30.0, 80.0])),
        mag=draw(f4),
        scan=draw(f4),
        when=draw(stamp),
        title=draw(gen.text(min_size=1, max_size=8).map(str.strip).filter(bool)),
        extra=draw(extra),
        ext=draw(st.sampled_from(["img", "map", "IMG"])),
    )


def img_tree(c):
    a = np.random.default_rng(c["seed"]).integers(0, 256, c["w"] * c["h"])
    return a, {
        "Instrument": {"ScanSize": ("f", [c["scan"]]), "Mag": ("f", [c["mag"]]), "AccV": ("d", [c["hv"]])},
        "Image": {"Created": ("d", [days(c["when"])]), "Title": ("c", c["title"]), "Size": ("i", [c["w"], c["h"]]), "Bits": (c["dt"], a.tolist())},
        "More": dict(c["extra"]),
    }


def img_file(c, path):
    a, t = img_tree(c)
    head = struct.pack("<I", 52) + b"JEOL".ljust(32, b"\0") + struct.pack("<3I", 60, 10, 80)
    with open(path, "wb") as f:
        f.write(head.ljust(80 + 12, b"\0") + tree(t) + b"\xff")


def check_img_result(c, ctx, r, name):
    a, t = img_tree(c)
    sigs.check_structure(ctx, r)
    exp = a.astype(np.dtype(c["dt"])).reshape(c["h"], c["w"])
    ctx.expect(r["data"].dtype == exp.dtype and np.array_equal(r["data"], exp), "image", lambda: f"{gen.short(r['data'], 200)} expected {gen.short(exp, 200)}")
    sc = float(np.float32(c["scan"])) / float(np.float32(c["mag"])) * 1e3
    sigs.check_axes(
        ctx,
        r["axes"],
        [dict(name="y", size=c["h"], scale=sc / c["h"], offset=0, units="µm", navigate=False, _tol=(1e-5, 0)), dict(name="x", size=c["w"], scale=sc / c["w"], offset=0, units="µm", navigate=False, _tol=(1e-5, 0))],
    )
    mode = "SEM" if c["hv"] <= 30 else "TEM"
    md = r["metadata"]
    ctx.expect(md["Acquisition_instrument"] == {mode: {"beam_energy": c["hv"], "magnification": np.float32(c["mag"])}}, "metadata", f"{md}")
    ctx.expect(md["General"]["title"] == c["title"] and md["General"]["original_filename"] == name, "metadata", f"{md}")
    check_date(ctx, md, c["when"])
    om = {k: dict(v) if isinstance(v, dict) else v for k, v in r["original_metadata"].items() if k not in ("asw", "asw_viewdata")}
    e = plain(t)
    e["Image"]["Bits"] = exp
    d = same(om, e)
    ctx.expect(d is None, "original-metadata", d)


def check_img(c, ctx):
    from rsciio.jeol import file_reader

    p = ctx.path("a." + c["ext"])
    img_file(c, p)
    ctx.label(c["dt"])
    ctx.nontrivial(c["w"] != c["h"])
    rs = ctx.sut(file_reader, p)
    ctx.expect(len(rs) == 1, "count")
    check_img_result(c, ctx, rs[0], "a." + c["ext"])


# ---------------------------------------------------------------- spectra

SYM = [("O", 8), ("Si", 14), ("Fe", 26), ("Cu", 29)]


@st.composite
def eds(draw):
    return dict(
        n=draw(st.sampled_from([1, 16, 200, 4096])),
        seed=draw(gen.seeds),
        coef=(draw(st.sampled_from([0.01, 0.0200004])), draw(st.sampled_from([0.0, -0.00176612, 1.5]))),
        live=draw(f4),
        hv=draw(st.sampled_from([15.0, 30.0, 200.0])),
        det=[draw(st.floats(-90, 90)) for _ in range(3)],
        when=draw(stamp),
        user=draw(gen.text(max_size=8)),
        excluded=draw(st.lists(st.integers(1, 92), max_size=3)),
        elements=draw(st.lists(st.tuples(st.sampled_from(SYM), st.integers(0, 3), st.floats(0, 20)), max_size=3, unique_by=lambda t: t[0])),
        quanti=draw(st.lists(st.tuples(st.sampled_from(SYM), st.floats(0, 100), st.floats(0, 1e5)), max_size=3, unique_by=lambda t: t[0])),
        lazy=draw(st.booleans()),
    )


def eds_header(c):
    """Fields of the header, each of its own value."""
    rng = np.random.default_rng(c["seed"] ^ 0x5EED)
    x = lambda: float(rng.uniform(0.01, 1e4))
    return {
        "sp_name": "EDX",
        "arr": [x() for _ in range(10)],
        **{k: x() for k in ("Esc", "Fnano F", "E Noise", "CH Res")},
        "live time": c["live"],
        **{k: x() for k in ("real time", "DeadTime", "CountRate")},
        "CountRate n": int(rng.integers(1, 1000)),
        "CountRate sum": [x(), x()],
        "CountRate value": x(),
        "DeadTime n": int(rng.integers(1, 1000)),
        "DeadTime sum": [x(), x()],
        "DeadTime value": x(),
    }


def eds_parameters(c):
    """(name, type, value) of the parameters of the footer, each of its own value."""
    rng = np.random.default_rng(c["seed"] ^ 0xF00)
    fixed = {"AccKV": c["hv"], "MnKaRES": c["det"][2], "DirAng": c["det"][0], "ElevAng": c["det"][1]}
    text = {"DetT": "EX-230", "SEM": "JSM", "Port": "P1", "WinCMat": "Be", "WinChem": "win", "SpatMat": "Au"}
    out = []
    for t, names in [
        ("s", "DetT SEM Port"),
        ("d", "AccKV AccNA"),
        ("b", "skip"),
        ("d", "MnKaRES WorkD InsD XtiltAng TakeAng IncAng"),
        ("i", "skip2"),
        ("d", "ScanSize"),
        ("H", "DT_64 DT_128 DT_256 DT_512 DT_1K"),
        ("d", "DetH DirAng XtalAng ElevAng ValidSize"),
        ("s", "WinCMat"),
        ("H", "WinCZ"),
        ("d", "WinCThic"),
        ("s", "WinChem"),
        ("H", "WinChem_nelem WinChem_Z1 WinChem_Z2 WinChem_Z3 WinChem_Z4 WinChem_Z5"),
        ("d", "WinChem_m1 WinChem_m2 WinChem_m3 WinChem_m4 WinChem_m5 WinThic WinDens"),
        ("s", "SpatMat"),
        ("H", "SpatZ"),
        ("d", "SpatThic SiDead SiThic"),
    ]:
        for k in names.split():
            v = {"s": lambda: text[k], "d": lambda: float(rng.uniform(0, 1e3)), "H": lambda: int(rng.integers(0, 65536)), "i": lambda: int(rng.integers(0, 2**31)), "b": lambda: rng.integers(-128, 128, 38).tolist()}[t]()
            out.append((k, t, fixed.get(k, v)))
    return out


def eds_file(c, path):
    data = np.random.default_rng(c["seed"]).integers(0, 2**31 - 1, c["n"]).astype("<i4")
    d = lambda *v: struct.pack(f"<{len(v)}d", *v)
    i = lambda *v: struct.pack(f"<{len(v)}i", *v)
    h = lambda *v: struct.pack(f"<{len(v)}H", *v)
    s = lambda t, n: t.encode().ljust(n, b"\0")
    hd = eds_header(c)
    o = struct.pack("<I", 1) + b"\0" * 6 + d(days(c["when"])) + s(hd["sp_name"], 80) + s(c["user"], 32)
    o += i(1) + d(*hd["arr"]) + i(7) + d(0, *(hd[k] for k in ("Esc", "Fnano F", "E Noise", "CH Res", "live time", "real time", "DeadTime", "CountRate")))
    for k in ("CountRate", "DeadTime"):
        o += i(hd[k + " n"]) + d(*hd[k + " sum"]) + d(hd[k + " value"]) + d(0)
    o += d(*c["coef"]) + s("OK", 32) + i(0) + d(0) + s("T3", 32) + i(c["n"]) + data.tobytes()
    o += i(0) + i(len(c["excluded"])) + h(*c["excluded"])
    o += i(len(c["elements"]))
    for (sym, z), nl, en in c["elements"]:
        o += i(2) + h(z) + i(1, 0) + h(10, 20) + b"\0" * 14 + d(en, 0, 0, 0) + s(sym, 32) + i(0) + i(nl)
        for k in range(nl):
            o += i(1) + d(en + k) + h(z) + bytes([len(sym) + 1]) + s(sym, len(sym) + 1) + b"\2" + s("KLM"[k], 2) + i(1)
    o += i(len(c["quanti"]))
    if c["quanti"]:
        o += i(1, 1, 1) + d(0) + i(1, 1)
        for (sym, z), m, n in c["quanti"]:
            o += i(2) + h(z) + i(1, 0) + d(1.5, 0) + d(m, 0.5, m / 2) + s(sym + "O", 16) + d(m / 3, 0, n, 0, 0) + i(0, 0) + d(0)
    o += i(5)
    for k, t, v in eds_parameters(c):
        if t == "s":
            o += s(v, 16 if k in ("DetT", "SEM", "Port", "WinChem") else 4)
        else:
            o += struct.pack(f"<{len(v)}{t}", *v) if k == "skip" else struct.pack("<" + t, v)
    with open(path, "wb") as f:
        f.write(o)
    return data


def check_eds_result(c, ctx, r, data, name):
    sigs.check_structure(ctx, r)
    ctx.expect(np.array_equal(sigs.compute(r["data"]), data), "spectrum", f"{gen.short(r['data'])} expected {gen.short(data)}")
    sigs.check_axes(ctx, r["axes"], [dict(name="Energy", size=c["n"], offset=c["coef"][1], scale=c["coef"][0], units="keV", navigate=False)])
    mode = "SEM" if c["hv"] <= 30 else "TEM"
    exp = {
        f"Acquisition_instrument.{mode}.beam_energy": c["hv"],
        f"Acquisition_instrument.{mode}.Detector.EDS": dict(azimuth_angle=c["det"][0], elevation_angle=c["det"][1], energy_resolution_MnKa=c["det"][2], detector_type="EX-230", live_time=c["live"]),
        "Signal.signal_type": "EDS_" + mode,
        "Signal.quantity": "X-rays (Counts)",
        "General.original_filename": name,
    }
    for k, v in exp.items():
        g = sigs.get(r["metadata"], k)
        ctx.expect(g == v, "metadata", f"{k}: {g!r} expected {v!r}")
    check_date(ctx, r["metadata"], c["when"])
    om = r["original_metadata"]
    hd = om["Header"]
    for k, v in {**eds_header(c), "NumCH": c["n"], "username": c["user"], "Tpl": "T3", "State": "OK", "CoefA": c["coef"][0], "CoefB": c["coef"][1]}.items():
        ctx.expect(np.array_equal(hd[k], v), "header", f"{k}: {hd[k]!r} expected {v!r}")
    ft = om["Footer"]
    ctx.expect(list(ft.get("Excluded elements", [])) == c["excluded"], "excluded", f"{ft.get('Excluded elements')}")
    es = ft.get("Selected elements", {})
    ctx.expect(list(es) == [e[0][0] for e in c["elements"]], "elements", f"{list(es)}")
    for (sym, z), nl, en in c["elements"]:
        e = es[sym]
        ctx.expect((e["Z"], e["Roi_min"], e["Roi_max"], e["Energy"]) == (z, 10, 20, en), "element", f"{sym}: {e}")
        ctx.expect(e["Lines"] == {f"{sym}_{'KLM'[k]}": {"energy": en + k, "Z": z, "detection": 1} for k in range(nl)}, "lines", f"{e['Lines']}")
    q = ft.get("Quanti", {})
    exp = {s_ + "O": {"Z": z, "Mass1 (%)": m, "Error": 0.5, "Atom (%)": m / 2, "Mass2 (%)": m / 3, "Counts": n, "Energy": 1.5} for (s_, z), m, n in c["quanti"]}
    ctx.expect(q == exp, "quanti", f"{q} expected {exp}")
    pr = ft["Parameters"]
    exp = {k: v for k, t, v in eds_parameters(c) if not k.startswith("skip")}
    for k, v in exp.items():
        ctx.expect(pr.get(k) == v, "parameters", f"{k}: {pr.get(k)!r} expected {v!r}")


def check_eds(c, ctx):
    from rsciio.jeol import file_reader

    p = ctx.path("a.eds")
    data = eds_file(c, p)
    ctx.label(f"elements{len(c['elements'])}")
    ctx.nontrivial(c["n"] > 1)
    rs = ctx.sut(file_reader, p, lazy=c["lazy"])
    ctx.expect(len(rs) == 1, "count")
    check_eds_result(c, ctx, rs[0], data, "a.eds")


# ---------------------------------------------------------------- projects


@st.composite
def asw(draw):
    views = draw(st.lists(st.lists(st.one_of(img(), eds()), max_size=3), min_size=1, max_size=3))
    return dict(views=views)


def check_asw(c, ctx):
    from rsciio.jeol import file_reader

    os.makedirs(ctx.path("Sample"))
    expected, sample = [], {}
    for i, v in enumerate(c["views"]):
        nd = {"Memo": ("c", f"view {i}")}
        if v:
            os.makedirs(ctx.path(f"Sample/V{i}"))
            nd["ViewData"] = {}
        for j, d in enumerate(v):
            if "dt" in d:
                name = f"I{j}.{d['ext']}"
                img_file(d, ctx.path(f"Sample/V{i}/{name}"))
                expected.append((d, name, None))
            else:
                name = f"S{j}.eds"
                expected.append((d, name, eds_file(d, ctx.path(f"Sample/V{i}/{name}"))))
            nd["ViewData"][str(j)] = {"Keyword": ("c", "k"), "Filename": ("c", f"Sample\\V{i}\\{name}")}
        sample[str(i)] = nd
    t = {"SampleInfo": {"0": {"Memo": ("c", "m"), "ViewInfo": sample}}}
    with open(ctx.path("p.asw"), "wb") as f:
        f.write(b"\0" * 12 + tree(t) + b"\xff")
    ctx.nontrivial(len(expected) > 1)
    ctx.label(f"files{len(expected)}")
    rs = ctx.sut(file_reader, ctx.path("p.asw"))
    ctx.expect(len(rs) == len(expected), "count", f"{len(rs)} signals for {len(expected)} files")
    for r, (d, name, data) in zip(rs, expected):
        if data is None:
            check_img_result(d, ctx, r, name)
        else:
            check_eds_result(d, ctx, r, data, name)
        ctx.expect(same(r["original_metadata"]["asw"], plain(t)) is None, "asw", f"{r['original_metadata']['asw']}")
        ctx.expect(r["original_metadata"]["asw_viewdata"]["Filename"].endswith(name), "asw-viewdata", f"{r['original_metadata']['asw_viewdata']}")


PROP = Prop(
    "C20",
    "a map with at least one X-ray event, an oblong image, a spectrum of several channels, or a project of several files",
    [
        Sub("maps", pts, check_pts, quick=500, shards=4),
        Sub("images", img, check_img, quick=200),
        Sub("spectra", eds, check_eds, quick=200),
        Sub("projects", asw, check_asw, quick=80),
    ],
)

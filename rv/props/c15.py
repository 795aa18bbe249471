"""C15: Digital Surf sur/pro files."""

import os
import struct
import zlib

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

FMT = "<12shHhh30s30shhhhhfIhiiiiifff" + "16s" * 9 + "fffhhh12s" + "h" * 7 + "fI6shh128sfffff13s13s"
KEYS = (
    "Signature Format Number_of_Objects Version Object_Type Object_Name Operator_Name P_Size Acquisition_Type Range_Type "
    "Special_Points Absolute Gauge_Resolution W_Size Size_of_Points Zmin Zmax Number_of_Points Number_of_Lines "
    "Total_Nb_of_Pts X_Spacing Y_Spacing Z_Spacing Name_of_X_Axis Name_of_Y_Axis Name_of_Z_Axis X_Step_Unit Y_Step_Unit "
    "Z_Step_Unit X_Length_Unit Y_Length_Unit Z_Length_Unit X_Unit_Ratio Y_Unit_Ratio Z_Unit_Ratio Imprint Inverted "
    "Levelled Obsolete Seconds Minutes Hours Day Month Year Day_of_week Measurement_duration Compressed_data_size "
    "Obsolete2 Comment_size Private_size Client_zone X_Offset Y_Offset Z_Offset T_Spacing T_Offset T_Axis_Name T_Step_Unit"
).split()
SPECTRAL = ["Wavelength", "Energy", "Energy Loss", "E"]
TYPES = {
    "profile": 1, "surface": 2, "binary": 3, "profileserie": 4, "surfaceserie": 5, "rgb": 12, "rgbserie": 18, "spectrum": 20,
    "spectrumserie": 20, "hyperspectral": 21,
}
NDIM = {"profile": (0, 1), "surface": (0, 2), "binary": (0, 2), "profileserie": (1, 1), "surfaceserie": (1, 2), "rgb": (0, 2),
        "rgbserie": (1, 2), "spectrum": (0, 1), "spectrumserie": (1, 1), "hyperspectral": (2, 1)}


def latin(n):
    return gen.text(max_size=n, blacklist="\x00").map(lambda s: s.encode("latin-1", "ignore").decode("latin-1").strip(" \t\n")).filter(
        lambda s: s not in SPECTRAL
    )


key = st.text("abcXYZ 019.-", min_size=1, max_size=8).map(str.strip).filter(bool)
word = st.text("abcdefXYZé%µ/", min_size=1, max_size=6).filter(lambda s: s not in ("inf", "nan"))
val = st.one_of(st.integers(-10**9, 10**9), gen.floats(-1e6, 1e6), st.booleans(), word, st.just(""))


@st.composite
def trees(draw):
    out = {}
    for k in draw(st.lists(key, max_size=4, unique=True)):
        d = {}
        for kk in draw(st.lists(key, max_size=4, unique=True)):
            if kk == "Grating":
                continue
            d[kk] = draw(val)
            if d[kk] != "" and draw(st.integers(0, 2)) == 0:
                d[kk + "_units"] = draw(st.sampled_from(["nm", "kV", "µm", "a.u."]))
        out[k] = d
    return out


scale = gen.scales.map(lambda x: float(np.float32(x)) or 1.0)
offset = gen.offsets.map(lambda x: float(np.float32(x)))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(list(TYPES)))
    nav, sig = NDIM[kind]
    shape = draw(gen.shapes(nav + sig, nav + sig, 1, 7))
    flip = nav == 0 and kind != "spectrum" and draw(st.integers(0, 1 if kind == "rgb" else 5)) == 0  # all axes navigation
    names = []
    for i in range(nav + sig):
        names.append(draw(latin(13)))
    if kind.startswith("spectrum"):
        names[-1] = draw(st.sampled_from(SPECTRAL))
    if kind in ("rgb", "rgbserie"):
        dt = draw(st.sampled_from(["rgb8", "rgb16", "rgba8", "rgba16"]))
    elif kind == "binary":
        dt = "b1"
    else:
        dt = draw(st.sampled_from(["f4", "f8", "f8", "u1", "i1", "u2", "i2", "i4", ">i2", ">f8", ">u2", ">i4"]))
    return dict(
        kind=kind,
        dtype=dt,
        shape=shape,
        mode=draw(gen.modes),
        seed=draw(gen.seeds),
        nan=draw(st.booleans()),
        names=names,
        scales=[draw(scale) for _ in shape],
        offsets=[draw(offset) for _ in shape],
        units=[draw(latin(13)) for _ in shape],
        flip=flip,
        zname=draw(st.sampled_from(["", "Height", "CL intensity", "a b c", "Intensité"])),
        zunit=draw(st.sampled_from(["", "nm", "µm", "Counts/s"])),
        date=draw(st.sampled_from([None, "2021-02-03", "1999-12-31"])),
        time=draw(st.sampled_from([None, "10:11:12", "23:59:59"])),
        special=draw(st.booleans()),
        compressed=draw(st.booleans()),
        comments=draw(st.sampled_from(["auto", "custom", "off", "raw", "auto-parsed"])),
        tree=draw(trees()),
        object_name=draw(latin(30)),
        operator=draw(latin(30)),
        absolute=draw(st.integers(0, 300)),
        private=draw(st.binary(max_size=20)),
        client=draw(st.binary(max_size=128)),
        hs=draw(st.booleans()),
    )


def decode(raw):
    """Independent decoder of a file: list of (header, comment, private, points)."""
    out = []
    pos = 0
    while pos < len(raw):
        h = dict(zip(KEYS, struct.unpack_from(FMT, raw, pos)))
        for k, v in h.items():
            if isinstance(v, bytes) and not k.startswith(("Obsolete", "Client")):
                h[k] = v.decode("latin-1").rstrip(" ")
        pos += 512
        com = raw[pos : pos + h["Comment_size"]]
        pos += h["Comment_size"]
        priv = raw[pos : pos + h["Private_size"]]
        pos += h["Private_size"]
        if h["Signature"] == "DSCOMPRESSED":
            end = pos + h["Compressed_data_size"]
            (n,) = struct.unpack_from("<I", raw, pos)
            d = struct.unpack_from("<%dI" % (2 * n), raw, pos + 4)
            p = pos + 4 + 8 * n
            buf = b""
            for i in range(n):
                part = zlib.decompress(raw[p : p + d[2 * i + 1]])
                assert len(part) == d[2 * i]
                buf += part
                p += d[2 * i + 1]
            assert p == end, "compressed size"
            pos = end
        else:
            n = h["Total_Nb_of_Pts"] * max(h["W_Size"], 1) * h["Size_of_Points"] // 8
            buf = raw[pos : pos + n]
            pos += n
        out.append((h, com, priv, np.frombuffer(buf, "<i%d" % (h["Size_of_Points"] // 8))))
    return out


def physical(h, pts):
    return (pts.astype("f8") - h["Zmin"]) * (h["Z_Spacing"] / h["Z_Unit_Ratio"]) + h["Z_Offset"]


def build(c):
    nav, sig = NDIM[c["kind"]]
    if c["kind"] in ("rgb", "rgbserie"):
        from rsciio.utils.rgb import RGB_DTYPES

        dt = RGB_DTYPES[c["dtype"]]
        base = gen.make_array((dt.fields["R"][0].str, tuple(c["shape"]) + (len(dt.names),), "random", c["seed"]))
        data = np.ascontiguousarray(base).view(dt).reshape(c["shape"])
        exp = base[..., :3]
    else:
        data = gen.make_array((c["dtype"], c["shape"], c["mode"], c["seed"]))
        if data.dtype.kind == "f":
            # extremes overflow the single precision header fields
            data = np.where((np.abs(data) > 1e30) | (np.abs(data) < 1e-20), data.dtype.type(12345.75), data).astype(c["dtype"])
            if c["nan"] and c["special"] and data.size > 1:
                data[np.random.default_rng(c["seed"]).random(data.shape) < 0.3] = np.nan
                if np.isnan(data).all():
                    data.flat[0] = 1.5
        exp = data
    nd = data.ndim
    axes = [
        sigs.axis(i, c["shape"][i], name=c["names"][i], units=c["units"][i], scale=c["scales"][i], offset=c["offsets"][i], navigate=c["flip"] or i < nd - sig)
        for i in range(nd)
    ]
    return gen.relayout(data, c["seed"]), exp, axes


def check(c, ctx):
    from rsciio.digitalsurf import file_reader, file_writer

    data, exp, axes = build(c)
    kind = c["kind"]
    zunit = f" ({c['zunit']})" if c["zunit"] and c["zname"] else ""
    md = {"General": {"title": "t"}, "Signal": {"quantity": c["zname"] + zunit}}
    for k in ("date", "time"):
        if c[k]:
            md["General"][k] = c[k]
    om, custom, method, tree = {}, {}, c["comments"], None
    if method == "custom":
        custom = tree = c["tree"]
    elif method == "raw":
        om = tree = c["tree"]
    elif method == "auto-parsed":
        method, tree = "auto", c["tree"]
        om = {"Object_0_Channel_0": {"Header": {"H01": 1}, "Parsed": c["tree"]}}
    elif method == "auto":
        om = tree = c["tree"]
    else:
        om = c["tree"]
    p = ctx.path("a.sur")
    s = sigs.signal(data, axes, metadata=md, original_metadata=om)
    fz = sigs.freeze(s)
    ctx.label(kind, c["dtype"], "compressed" if c["compressed"] else "raw", c["comments"], "special" if c["special"] else "plain")
    ctx.nontrivial(exp.size > 1)
    ctx.sut(
        file_writer, p, s, set_comments=method, is_special=c["special"], compressed=c["compressed"], comments=custom, object_name=c["object_name"],
        operator_name=c["operator"], absolute=c["absolute"], private_zone=c["private"], client_zone=c["client"],
    )
    d = gen.deep_diff(fz, sigs.freeze(s))
    ctx.expect(d is None, "input-modified", lambda: f"the signal given to the writer was changed: {d}")
    raw = open(p, "rb").read()
    objs = ctx.sut(decode, raw)
    n = {"profileserie": c["shape"][0], "surfaceserie": c["shape"][0], "rgb": 3, "rgbserie": 3 * c["shape"][0]}.get(kind, 1)
    ctx.expect(len(objs) == n, "objects", f"{len(objs)} objects in the file, expected {n}")
    h = objs[0][0]
    for k, e in dict(Object_Type=TYPES[kind], Object_Name=c["object_name"], Operator_Name=c["operator"], Absolute=c["absolute"],
                     Special_Points=int(c["special"]), Name_of_Z_Axis=md["Signal"]["quantity"].split(" (")[0], Z_Step_Unit=c["zunit"] if zunit else "").items():
        ctx.expect(h[k] == e or (isinstance(e, str) and h[k].strip() == e.strip()), f"header-{k}", f"{h[k]!r} expected {e!r}")
    for h_, com, priv, pts in objs:
        ctx.expect(h_["Client_zone"] == c["client"].ljust(128, b"\0"), "client-zone", f"{h_['Client_zone']!r}")
        ctx.expect(priv == c["private"], "private-zone", f"{priv!r} expected {c['private']!r}")
    # what a reader of the format would see
    phys = [physical(h_, pts) for h_, _, _, pts in objs]
    if kind in ("rgb", "rgbserie"):
        flat = exp.reshape(-1, int(np.prod(c["shape"][-2:])), 3)
        expected = [flat[i, :, j].astype("f8") for i in range(flat.shape[0]) for j in range(3)]
    elif n > 1:
        expected = [x.astype("f8").ravel() for x in exp]
    else:
        expected = [exp.astype("f8").ravel()]

    def tolerance(e):
        e = e[np.isfinite(e)]
        if not e.size:
            return 0.0
        if exp.dtype.kind != "f":
            return 0.0 if np.abs(e).max(initial=0) < 2**24 else 2.0**-23 * np.abs(e).max()
        return (np.ptp(e) + np.abs(e).max(initial=0)) * 2.0**-22 + 1e-42

    def same(g, e):
        ok = ~np.isnan(e)
        return g.shape == e.shape and np.array_equal(np.isnan(g), ~ok) and np.all(np.abs(g[ok] - e[ok]) <= tolerance(e))

    for (h_, _, _, pts), g, e in zip(objs, phys, expected):
        nan = np.isnan(e)
        if nan.any():
            ctx.expect(np.array_equal(pts == h_["Zmin"] - 2, nan), "written-nan", "non-measured points are not those that were NaN")
            g = np.where(nan, np.nan, g)
        ctx.expect(same(g, e), "written-data", lambda: f"{gen.short(g)} expected {gen.short(e)}")
    # reading back
    out = ctx.sut(file_reader, p)
    ctx.expect(len(out) == 1, "count", len(out))
    r = out[0]
    sigs.check_structure(ctx, r)
    g = np.asarray(r["data"])
    if kind == "rgb":
        ctx.expect(g.shape == (3,) + tuple(c["shape"]), "shape", f"{g.shape}")
        g = np.moveaxis(g, 0, -1)
    elif kind == "binary":
        pass
    e = exp
    if kind == "spectrumserie" and c["shape"][0] == 1:
        e = exp[0]
    ctx.expect(g.shape == e.shape, "shape", f"{g.shape} expected {e.shape}")
    if kind in ("surface", "surfaceserie") and exp.dtype.kind != "f":
        ctx.expect(g.dtype.kind == "i" and np.array_equal(g, e), "int-data", lambda: f"{g.dtype} {gen.short(g)} expected {gen.short(e)}")
    elif kind == "surfaceserie" or kind == "profileserie":
        ctx.expect(all(same(np.asarray(a, "f8").ravel(), b) for a, b in zip(g, expected)), "data", lambda: f"{gen.short(g)} expected {gen.short(e)}")
    else:
        ctx.expect(same(np.asarray(g, "f8").ravel(), np.asarray(e, "f8").ravel()), "data", lambda: f"{gen.short(g)} expected {gen.short(e)}")
    ax = list(r["axes"])
    if kind == "rgb":
        ax = ax[1:]
    elif kind == "rgbserie":
        ax = ax[:-1]
    ea = [a for a in axes if not (kind == "spectrumserie" and c["shape"][0] == 1 and a is axes[0])]
    ctx.expect(len(ax) == len(ea), "axes-count", f"{len(ax)} axes expected {len(ea)}")
    keys = ["name", "units", "scale", "offset", "size"] + ([] if c["flip"] or kind.startswith("rgb") else ["navigate"])
    sigs.check_axes(ctx, ax, ea, rtol=1e-6, keys=keys)
    m = r["metadata"]
    eq = md["Signal"]["quantity"]
    ctx.expect(sigs.get(m, "Signal.quantity") == eq, "quantity", f"{sigs.get(m, 'Signal.quantity')!r} expected {eq!r}")
    for k in ("date", "time"):
        ctx.expect((sigs.get(m, f"General.{k}") or None) == c[k], k, f"{sigs.get(m, f'General.{k}')!r} expected {c[k]!r}")
    ctx.expect(sigs.get(m, "General.authors") == c["operator"], "authors", f"{sigs.get(m, 'General.authors')!r}")
    ctx.expect(sigs.get(m, "General.original_filename") == os.path.basename(p), "filename", f"{sigs.get(m, 'General.original_filename')!r}")
    check_om(c, ctx, r["original_metadata"], objs, kind, tree)
    if c["hs"] and kind.startswith("rgb"):
        check_hs(c, ctx, p, exp, axes)


def check_om(c, ctx, om, objs, kind, tree):
    nch = 3 if kind.startswith("rgb") else 1
    ctx.expect(set(om) == {f"Object_{i // nch}_Channel_{i % nch}" for i in range(len(objs))}, "om-keys", f"{sorted(om)}")
    for i, (h, com, priv, pts) in enumerate(objs):
        hd = om[f"Object_{i // nch}_Channel_{i % nch}"]["Header"]
        byname = {k.split("_", 1)[1]: v for k, v in hd.items() if k[:1] == "H"}
        for k in ("Object_Type", "Zmin", "Zmax", "Z_Offset", "Z_Spacing", "Number_of_Points", "Total_Nb_of_Pts", "Size_of_Points"):
            ctx.expect(byname.get(k) == h[k] or h[k] != h[k], "om-header", f"object {i} {k}: {byname.get(k)!r} expected {h[k]!r}")
    if tree is not None:
        parsed = om["Object_0_Channel_0"].get("Parsed", {})
        # a section title is written for every sub-dictionary, empty or not
        d = gen.deep_diff({k: dict(v) for k, v in parsed.items()}, {k: v for k, v in tree.items()})
        ctx.expect(d is None, "comments", lambda: f"{d}: {parsed} expected {tree}")
    else:
        ctx.expect("Parsed" not in om["Object_0_Channel_0"], "comments-off", "comments written although set to 'off'")


def check_hs(c, ctx, p, exp, axes):
    import hyperspy.api as hs

    hs.set_log_level("ERROR")
    s = ctx.sut(hs.load, p, reader="digitalsurf")
    f = s.data.dtype.names
    ctx.expect(f is not None and s.data.shape == tuple(c["shape"]), "hs-rgb", f"{s}: {s.data.dtype} {s.data.shape} expected RGB {c['shape']}")
    got = np.stack([s.data[k] for k in "RGB"], -1)
    ctx.expect(np.array_equal(got, exp), "hs-rgb-data", lambda: f"{gen.short(got)} expected {gen.short(exp)}")
    got = [(a.size, a.navigate, a.name, a.units) for a in s.axes_manager._axes]
    e = [(a["size"], a["navigate"] and not c["flip"], a["name"], a["units"]) for a in axes]
    ctx.expect(got == e, "hs-rgb-axes", f"{got} expected {e}")


# ------------------------------------------------------------------ files of other software


@st.composite
def foreign(draw):
    kind = draw(st.sampled_from(["profile", "surface", "surface", "binary", "profileserie", "surfaceserie", "multilayer", "intensity", "spectrum", "hyperspectral"]))
    return dict(
        kind=kind,
        shape=draw(gen.shapes(3, 3, 1, 6)),
        psize=draw(st.sampled_from([2, 4])),
        seed=draw(gen.seeds),
        zmin=draw(st.integers(-100, 100)),
        zscale=draw(st.sampled_from([1.0, 2.0, 0.5, 0.001, 3.0])),
        ratio=draw(st.sampled_from([1.0, 1.0, 2.0, 0.5])),
        zoff=draw(st.sampled_from([0.0, 0.0, 1.0, -7.5, "zmin"])),
        special=draw(st.booleans()),
        streams=draw(st.sampled_from([0, 1, 2, 3])),
        zero_counts=draw(st.booleans()),
        names=[draw(latin(13)) for _ in range(4)],
        units=[draw(latin(13)) for _ in range(4)],
        scales=[draw(scale) for _ in range(3)],
        offsets=[draw(offset) for _ in range(3)],
        when=draw(st.sampled_from([(0, 0, 0, 0, 0, 0), (2020, 1, 2, 3, 4, 5), (1987, 12, 31, 23, 59, 59)])),
        comment=draw(st.sampled_from(["", "free text", "$_Sec\n$a = 1 nm\n$b = x", "@@skip\n$k = 2.5"])),
        private=draw(st.binary(max_size=9)),
        wzero=draw(st.booleans()),
    )


FT = {"profile": 1, "surface": 2, "binary": 3, "profileserie": 4, "surfaceserie": 5, "multilayer": 8, "intensity": 10, "spectrum": 20, "hyperspectral": 21}


def check_foreign(c, ctx):
    from rsciio.digitalsurf import file_reader

    kind = c["kind"]
    T, Y, X = c["shape"]
    W = 0
    nobj, nlines = 1, Y
    if kind in ("profileserie", "surfaceserie", "multilayer"):
        nobj = T
    if kind in ("profile", "profileserie"):
        nlines = 1
    if kind == "hyperspectral":
        W = T
    rng = np.random.default_rng(c["seed"])
    dt = np.dtype("<i%d" % c["psize"])
    zmin = c["zmin"]
    zoff = float(zmin) if c["zoff"] == "zmin" else c["zoff"]
    raw = b""
    pts = []
    for i in range(nobj):
        n = X * nlines * max(W, 1)
        a = (zmin + rng.integers(0, 2 if kind == "binary" else 200, n)).astype(dt)
        if c["special"] and kind not in ("binary", "intensity"):
            a[rng.random(n) < 0.3] = zmin - 2
        pts.append(a)
        com = c["comment"].encode("latin-1") if i == 0 else b""
        if c["streams"]:
            k = -(-n // c["streams"])
            parts = [a[j * k : (j + 1) * k].tobytes() for j in range(c["streams"])]
            zs = [zlib.compress(q) for q in parts]
            body = struct.pack("<I", len(zs)) + b"".join(struct.pack("<II", len(q), len(z)) for q, z in zip(parts, zs)) + b"".join(zs)
        else:
            body = a.tobytes()
        h = {k: 0 for k in KEYS}
        for k, f in zip(KEYS, _codes()):
            if f.endswith("s"):
                h[k] = b" " * int(f[:-1])
        y, mo, d, hh, mi, ss = c["when"]
        h.update(
            Signature=b"DSCOMPRESSED" if c["streams"] else b"DIGITAL SURF", Number_of_Objects=0 if c["zero_counts"] and kind not in ("profileserie", "surfaceserie", "multilayer") else nobj, Version=1,
            Object_Type=FT[kind] if i == 0 else {"profileserie": 1}.get(kind, 2), P_Size=0 if c["zero_counts"] else 1,
            Special_Points=int(c["special"]), W_Size=W if W else int(not c["wzero"]), Size_of_Points=8 * c["psize"], Zmin=zmin, Zmax=zmin + 200,
            Number_of_Points=X, Number_of_Lines=nlines, Total_Nb_of_Pts=X * nlines, X_Spacing=c["scales"][0], Y_Spacing=c["scales"][1], Z_Spacing=c["zscale"],
            X_Unit_Ratio=1.0, Y_Unit_Ratio=1.0, Z_Unit_Ratio=c["ratio"], Seconds=ss, Minutes=mi, Hours=hh, Day=d, Month=mo, Year=y,
            Compressed_data_size=len(body), Comment_size=len(com), Private_size=len(c["private"]), X_Offset=c["offsets"][0], Y_Offset=c["offsets"][1],
            Z_Offset=zoff, T_Spacing=c["scales"][2], T_Offset=c["offsets"][2],
        )
        for j, k in enumerate(["Name_of_X_Axis", "Name_of_Y_Axis", "T_Axis_Name", "Name_of_Z_Axis"]):
            h[k] = c["names"][j].encode("latin-1").ljust(13).ljust(16 if j != 2 else 13)
        for j, k in enumerate(["X_Step_Unit", "Y_Step_Unit", "T_Step_Unit", "Z_Step_Unit"]):
            h[k] = c["units"][j].encode("latin-1").ljust(16 if j != 2 else 13)
        raw += struct.pack(FMT, *[h[k] for k in KEYS]) + com + c["private"] + body
    p = ctx.path("f.sur")
    with open(p, "wb") as f:
        f.write(raw)
    ctx.label(kind, f"streams{c['streams']}", "special" if c["special"] else "plain", f"zscale{c['zscale']}")
    ctx.nontrivial(X * Y > 1)
    r = ctx.sut(file_reader, p)[0]
    sigs.check_structure(ctx, r)
    z = np.float32(c["zscale"]).astype("f8") / c["ratio"]
    val = [(a.astype("f8") - zmin) * z + zoff for a in pts]
    if c["special"]:
        for a, v in zip(pts, val):
            v[a == zmin - 2] = np.nan
    unscaled = z == 1 and zoff == zmin and kind in ("surface", "surfaceserie")
    if kind == "multilayer" and z == 1 and zoff == zmin:
        # the layers after the first one are plain surfaces of unscaled integers
        val[1:] = [a.astype("f8") for a in pts[1:]]
    if unscaled or kind == "binary":
        val = [a.astype("f8") for a in pts]
    elif kind == "intensity":
        val = [np.round(v) for v in val]
    shape = {
        "profile": (X,), "surface": (Y, X), "binary": (Y, X), "intensity": (Y, X), "profileserie": (nobj, X), "surfaceserie": (nobj, Y, X),
        "multilayer": (nobj, Y, X), "spectrum": (Y, X) if Y > 1 else (X,), "hyperspectral": (Y, X, W),
    }[kind]
    e = np.concatenate(val).reshape(shape)
    g = np.asarray(r["data"])
    ctx.expect(g.shape == e.shape, "shape", f"{g.shape} expected {e.shape}")
    ctx.expect(np.allclose(g.astype("f8"), e, rtol=1e-6, atol=1e-6, equal_nan=True), "data", lambda: f"{g.dtype} {gen.short(g)} expected {gen.short(e)}")
    xa, ya, ta = [dict(name=c["names"][j], units=c["units"][j], scale=c["scales"][j], offset=c["offsets"][j]) for j in range(3)]
    lay = {
        "profile": [(xa, False)], "surface": [(ya, False), (xa, False)], "binary": [(ya, False), (xa, False)], "intensity": [(ya, False), (xa, False)],
        "profileserie": [(ta, True), (xa, False)], "surfaceserie": [(ta, True), (ya, False), (xa, False)], "multilayer": [(ta, True), (ya, False), (xa, False)],
        "spectrum": [(ya, True), (xa, False)] if Y > 1 else [(xa, False)], "hyperspectral": [(ya, True), (xa, True), (ta, False)],
    }[kind]
    ctx.expect(len(r["axes"]) == len(lay), "axes-count", f"{len(r['axes'])}")
    sigs.check_axes(ctx, r["axes"], [dict(a, navigate=nv, size=n) for (a, nv), n in zip(lay, shape)], rtol=1e-6)
    y, mo, d, hh, mi, ss = c["when"]
    m = r["metadata"]["General"]
    ctx.expect(m["date"] == (f"{y:04d}-{mo:02d}-{d:02d}" if y else "") and m["time"] == (f"{hh:02d}:{mi:02d}:{ss:02d}" if y else ""), "date-time", f"{m}")
    parsed = r["original_metadata"]["Object_0_Channel_0"].get("Parsed")
    e = {"": None, "free text": None, "$_Sec\n$a = 1 nm\n$b = x": {"Sec": {"a": 1, "a_units": "nm", "b": "x"}}, "@@skip\n$k = 2.5": {"UNTITLED": {"k": 2.5}}}[c["comment"]]
    ctx.expect(parsed == e, "parsed", f"{parsed} expected {e}")


def _codes():
    import re

    out = []
    for n, f in re.findall(r"(\d*)([a-zA-Z])", FMT[1:]):
        if f == "s":
            out.append(n + "s")
        else:
            out += [f] * int(n or 1)
    return out


# ------------------------------------------------------------------ limits of the format


@st.composite
def limits(draw):
    what = draw(st.sampled_from(["comment", "private", "both", "dtype"]))
    return dict(
        what=what,
        n=draw(st.integers(2900, 3400)) if what in ("comment", "both") else draw(st.integers(0, 20)),
        private=draw(st.sampled_from([32766, 32767, 32768, 40000, 65535, 65536, 70000])) if what in ("private", "both") else draw(st.integers(0, 9)),
        dtype=draw(st.sampled_from(["c8", "c16", "u4", "u8", "i8", ">u4", ">c8"])) if what == "dtype" else draw(st.sampled_from(["i2", "f4", "u1"])),
        shape=draw(gen.shapes(1, 3, 1, 5)),
        sig=draw(st.integers(1, 2)),
        compressed=draw(st.booleans()),
        seed=draw(gen.seeds),
    )


def check_limits(c, ctx):
    from rsciio.digitalsurf import file_reader, file_writer
    from rsciio.exceptions import MountainsMapFileError

    data = gen.make_array((c["dtype"], c["shape"], "random", c["seed"]))
    if data.dtype.kind == "f":
        data = np.round(data / np.abs(data).max() * 100) if np.isfinite(data).all() and data.any() else np.ones_like(data)
    nd = data.ndim
    sig = min(c["sig"], nd) if nd < 3 else 2 if c["sig"] == 2 else 1
    axes = [sigs.axis(i, n, name=f"a{i}", navigate=i < nd - sig) for i, n in enumerate(c["shape"])]
    tree = {"Section": {f"key {i:04d}": i for i in range(c["n"])}}
    private = np.random.default_rng(c["seed"]).bytes(c["private"])
    p = ctx.path("l.sur")
    ctx.label(c["what"])
    ctx.nontrivial()
    s = sigs.signal(data, axes, metadata={"General": {"title": "t"}, "Signal": {"quantity": "h"}})
    kw = dict(set_comments="custom", comments=tree, private_zone=private, compressed=c["compressed"])
    if c["what"] == "dtype":
        try:
            file_writer(p, s, **kw)
        except MountainsMapFileError:
            return
        ctx.expect(False, "dtype refused", f"{c['dtype']} was written")
    ctx.sut(file_writer, p, s, **kw)
    objs = ctx.sut(decode, open(p, "rb").read())
    ctx.expect(all(o[2] == private[: 2**15 - 1] for o in objs), "private zone", f"{len(objs[0][2])} bytes of {len(private)}")
    com = objs[0][1].decode("latin-1")
    ctx.expect(len(com) == 2**15 - 1 or c["n"] * 9 < 2**15, "size of the comment", f"{len(com)} for {c['n']} entries")
    r = ctx.sut(file_reader, p)[0]
    g = np.asarray(r["data"], "f8")
    ctx.expect(g.size == data.size and np.allclose(g.ravel(), data.ravel(), rtol=1e-6, atol=1e-5), "data", lambda: f"{gen.short(g)} expected {gen.short(data)}")
    got = r["original_metadata"]["Object_0_Channel_0"].get("Parsed", {}).get("Section")
    if len(com) < 2**15 - 1:
        ctx.expect(dict(got or {}) == tree["Section"], "comment", f"{len(got or {})} of {c['n']}")
    elif got is not None:
        # (a comment whose last line is cut before its value isn't parsed at all)
        names = list(tree["Section"])[: len(got)]
        ctx.expect(list(got)[:-1] == names[:-1] and all(got[k] == tree["Section"][k] for k in names[:-1]), "comment cut", f"{len(got)} of {c['n']}")


PROP = Prop(
    "C15",
    "Round trips of random profiles, surfaces, binary and RGB(A) images, series, spectra and hyperspectral maps of every "
    "exportable dtype and memory layout, with calibrations, NaN points, quantities, dates, all writer options and comment "
    "trees; the written bytes are decoded by an independent decoder and read back by the reader, RGB kinds also through "
    "the post-processing applied by HyperSpy. Files built by an independent encoder with any Z scaling, unit ratio, "
    "special points, several compression streams and zero counts are read. Float data has the tolerance of the 32-bit "
    "quantisation and of the single precision header fields. Non-trivial: more than one value.",
    [
        Sub("roundtrip", cases, check, quick=1300, shards=4),
        Sub("foreign", foreign, check_foreign, quick=1300, shards=4),
        Sub("limits", limits, check_limits, quick=80, shards=1),
    ],
)

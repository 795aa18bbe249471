"""C08: standard image formats."""

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub
from .c07 import rgb_array

# what each format stores without loss: dtype -> dtype read back
LOSSLESS = {
    "png": {"b1": "b1", "u1": "u1", "u2": "u2", "rgb8": "rgb8", "rgba8": "rgba8"},
    "bmp": {"b1": "b1", "u1": "u1", "rgb8": "rgb8"},
    "dib": {"b1": "b1", "u1": "u1", "rgb8": "rgb8"},
    "pcx": {"b1": "b1", "u1": "u1", "rgb8": "rgb8"},
    "ppm": {"b1": "b1", "u1": "u1", "u2": None, "rgb8": "rgb8"},
    "pgm": {"b1": "b1", "u1": "u1", "u2": None},
    "pbm": {"b1": "b1"},
    "xbm": {"b1": "b1"},
    "msp": {"b1": "b1"},
    "gif": {"u1": "u1"},
}
PAIRS = [(e, k) for e, v in LOSSLESS.items() for k in v]


@st.composite
def cases(draw):
    ext, kind = draw(st.sampled_from(PAIRS))
    shape = draw(gen.shapes(2, 2, 1, 24))
    return dict(
        ext=ext,
        kind=kind,
        shape=shape,
        mode=draw(gen.modes),
        seed=draw(gen.seeds),
        same=draw(st.sampled_from(["", "", "GB", "RG", "RB"])),
        layout=draw(st.sampled_from(["C", "F", "view", "lazy"])),
        navigate=draw(st.booleans()),
        kw=draw(st.sampled_from([{}, {}, {"optimize": True}, {"compress_level": 9}])) if ext == "png" else {},
    )


def make(c):
    if c["kind"].startswith("rgb"):
        raw, data = rgb_array(c["kind"], c["shape"], c["seed"])
        if c["same"]:
            data = data.copy()
            data[c["same"][0]] = data[c["same"][1]]
        return data
    return gen.make_array((c["kind"], c["shape"], c["mode"], c["seed"]))


def check(case, ctx):
    from rsciio.image import file_reader, file_writer

    c = case
    data = make(c)
    kind, ext = c["kind"], c["ext"]
    out_dt = LOSSLESS[ext][kind]
    exp = data
    is_rgb = kind.startswith("rgb")
    if is_rgb and all(np.array_equal(data["R"], data[k]) for k in "GB"):
        exp, is_rgb = data["R"], False
        out_dt = "u1"
    wr = data
    if c["layout"] == "F":
        wr = np.asfortranarray(data)
    elif c["layout"] == "view":
        big = np.zeros(tuple(2 * s for s in data.shape), data.dtype)
        big[::2, ::2] = data
        wr = big[::2, ::2]
    elif c["layout"] == "lazy":
        wr = sigs.lazy_of(data)
    axes = [sigs.axis(i, s, name="yx"[i], units="nm", scale=0.5, navigate=c["navigate"]) for i, s in enumerate(data.shape)]
    p = ctx.path(f"i.{ext}")
    ctx.label(ext, kind, c["layout"], "grey-rgb" if kind.startswith("rgb") and not is_rgb else "")
    ctx.nontrivial(data.size > 3)
    ctx.sut(file_writer, p, sigs.signal(wr, axes), **c["kw"])
    for lazy in (False, True):
        r = ctx.sut(file_reader, p, lazy=lazy)
        ctx.expect(len(r) == 1, "count")
        r = r[0]
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], exp, lazy=lazy, dtype=out_dt is not None)
        sigs.check_axes(
            ctx,
            r["axes"],
            [dict(name=n, scale=1.0, offset=0, size=s, units=None) for n, s in zip("yx", data.shape)],
        )
        ctx.expect(r["metadata"]["General"]["original_filename"] == f"i.{ext}", "original_filename")
        ctx.expect([a.get("index_in_array") for a in r["axes"]] == [0, 1], "axes-index")


@st.composite
def exports(draw):
    h, w = draw(st.integers(2, 60)), draw(st.integers(2, 60))
    size = draw(
        st.one_of(
            st.none(),
            st.tuples(st.integers(10, 200), st.integers(10, 200)),
            st.integers(10, 200),
        )
    )
    if isinstance(size, int) and size * h < 3 * w:
        h = w
    return dict(
        shape=(h, w),
        seed=draw(gen.seeds),
        size=size,
        scalebar=draw(st.booleans()),
        kw=draw(st.sampled_from([None, {"cmap": "gray", "vmin": 0, "vmax": 255}])),
        scale=draw(st.floats(0.01, 100)),
        units=draw(st.sampled_from(["nm", "µm", "1/nm", None])),
        units2=draw(st.sampled_from(["nm", "1/nm"])),
        navigate=draw(st.booleans()),
    )


def check_export(case, ctx):
    import imageio.v3 as iio

    from rsciio.image import file_writer

    c = case
    data = gen.make_array(("u1", c["shape"], "random", c["seed"]))
    p = ctx.path("e.png")

    def ax(units):
        return [sigs.axis(i, s, units=units, scale=c["scale"], navigate=c["navigate"]) for i, s in enumerate(c["shape"])]

    kw = None if c["kw"] is None else dict(c["kw"])
    sbk = {"location": "lower right"} if c["scalebar"] else None
    ctx.label("scalebar" if c["scalebar"] else "plain", f"size-{type(c['size']).__name__}", "imshow" if kw else "")
    ctx.nontrivial()
    for units in (c["units"], c["units2"]):  # the same keyword dictionaries are used twice
        ctx.sut(
            file_writer, p, sigs.signal(data, ax(units)), scalebar=c["scalebar"], scalebar_kwds=sbk, output_size=c["size"], imshow_kwds=kw
        )
        got = iio.imread(p)
        h, w = c["shape"]
        if c["size"] is None:
            exp = (h, w)
        elif isinstance(c["size"], tuple):
            exp = (c["size"][1], c["size"][0])
        else:
            exp = (c["size"] * h / w, c["size"])
        ctx.expect(
            abs(got.shape[0] - exp[0]) <= (1 if isinstance(c["size"], int) else 0) and got.shape[1] == exp[1],
            "output-size",
            f"{got.shape} expected {exp}",
        )
        if c["size"] is None and not c["scalebar"]:
            g = got[..., 0] if got.ndim == 3 else got
            if c["kw"]:
                d = np.abs(g.astype(int) - data)
                ctx.expect(d.max() <= 1, "rendered-values", f"max difference {d.max()}")
            else:
                ctx.expect(np.array_equal(g, data), "values")


@st.composite
def frames(draw):
    kind = draw(st.sampled_from(["gif", "gif", "png", "la", "rgb gif", "rgba png", "palette"]))
    return dict(kind=kind, n=draw(st.integers(1, 5)), shape=draw(gen.shapes(2, 2, 1, 9)), seed=draw(gen.seeds), alpha=draw(st.sampled_from(["full", "any"])))


def check_frames(case, ctx):
    """Files written by Pillow: several frames, grey with transparency, palettes."""
    from PIL import Image, ImageSequence

    from rsciio.image import file_reader

    c = case
    rng = np.random.default_rng(c["seed"])
    h, w = c["shape"]
    channels = {"gif": (), "png": (), "la": (2,), "rgb gif": (3,), "rgba png": (4,), "palette": ()}[c["kind"]]
    n = 1 if c["kind"] in ("la", "palette") else c["n"]
    a = rng.integers(0, 256, (n, h, w) + channels).astype("u1")
    p = ctx.path("f.gif" if "gif" in c["kind"] else "f.png")
    ims = [Image.fromarray(x) for x in a]
    if c["kind"] == "la":
        if c["alpha"] == "full":
            a[..., 1] = 255
        ims = [Image.merge("LA", [Image.fromarray(np.ascontiguousarray(a[0, ..., i])) for i in (0, 1)])]
        exp = a[..., 0]
    elif c["kind"] == "palette":
        pal = rng.integers(0, 256, (256, 3)).astype("u1")
        ims[0].putpalette(pal.tobytes())
        exp = pal[a]
    ims[0].save(p, save_all=n > 1, append_images=ims[1:])
    if c["kind"] not in ("la", "palette"):  # Pillow merges frames which are the same
        with Image.open(p) as im:
            exp = np.stack([np.array(f.convert("RGBA" if "rgba" in c["kind"] else "RGB")) for f in ImageSequence.Iterator(im)])
    if exp.ndim == 4:
        if (exp[..., 0] == exp[..., 1]).all() and (exp[..., 1] == exp[..., 2]).all():
            exp = exp[..., 0]
        else:
            k = exp.shape[-1]
            exp = np.ascontiguousarray(exp).view([(x, "u1") for x in "RGBA"[:k]])[..., 0]
    n = len(exp)
    if n == 1:
        exp = exp[0]
    ctx.label(c["kind"], f"{n} frames")
    ctx.nontrivial(n > 1 or c["kind"] in ("la", "palette"))
    for lazy in (False, True):
        r = ctx.sut(file_reader, p, lazy=lazy)
        ctx.expect(len(r) == 1, "count")
        r = r[0]
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], exp, lazy=lazy)
        sigs.check_axes(ctx, r["axes"][-2:], [dict(name=m, scale=1.0, offset=0, size=s, units=None) for m, s in zip("yx", (h, w))])
        if n > 1:
            sigs.check_axes(ctx, r["axes"][:1], [dict(scale=1.0, offset=0, size=n, navigate=True)])
            ctx.expect(not any(x.get("navigate") for x in r["axes"][1:]), "frames-navigate", r["axes"])


PROP = Prop(
    "C08",
    "Random images (bool, 8/16 bit grey, RGB, RGBA; with pairs of equal channels; C, Fortran, strided and dask "
    "inputs; 1 to 24 pixels per side) are written in every lossless format and read eagerly and lazily; exports with "
    "scale bar, output size and imshow options are read back with imageio; files of Pillow with several frames, "
    "transparency or palettes are read. Non-trivial: more than 3 pixels, or several frames.",
    [
        Sub("roundtrip", cases, check, quick=1500, shards=3),
        Sub("frames", frames, check_frames, quick=300),
        Sub("export", exports, check_export, quick=250, shards=4),
    ],
)

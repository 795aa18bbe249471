"""C09: EMD files of the NCEM specification."""

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

DT = gen.INTS + gen.FLOATS + gen.COMPLEX + [">i2", ">f4", "b1"]
# units as pint prints them: the reader normalises the spelling
UN = ["nm", "µm", "Å", "1/nm", "eV", "keV", "s", "mrad", "mm", "", None, "kV", "1/Å"]
name = gen.text(max_size=8, min_size=0, blacklist="")
titles = gen.text(max_size=12, min_size=1, blacklist="/").map(str.strip).filter(lambda t: t not in ("", ".", "..") and "_depth" not in t and not t.startswith(".") and "CBED" not in t)
attrs = st.dictionaries(
    st.from_regex(r"[A-Za-z][A-Za-z0-9_ ]{0,8}", fullmatch=True),
    st.one_of(
        gen.text(max_size=15),
        st.integers(-(2**62), 2**62),
        gen.floats(),
        st.booleans(),
        st.lists(gen.floats(-1e9, 1e9), min_size=1, max_size=4).map(lambda v: ("array", tuple(v))),
    ),
    max_size=4,
)


def un(v):
    return np.array(v[1]) if isinstance(v, tuple) else v


@st.composite
def cases(draw):
    shape = draw(gen.shapes(1, 4, 1, 6))
    chunks = draw(st.sampled_from([None, None, True, "one", "full"]))
    return dict(
        data=(draw(st.sampled_from(DT)), shape, draw(gen.modes), draw(gen.seeds)),
        lazy=draw(st.booleans()),
        layout=draw(st.sampled_from(["C", "F", "reversed", "strided"])),
        chunks=tuple(draw(st.integers(1, s)) for s in shape) if chunks == "one" else (shape if chunks == "full" else chunks),
        axes=[dict(name=draw(st.one_of(st.none(), name)), units=draw(st.sampled_from(UN)), scale=draw(gen.scales), offset=draw(gen.offsets), navigate=draw(st.booleans())) for _ in shape],
        title=draw(titles),
        om={k: draw(attrs) for k in ("microscope", "sample", "user", "comments") if draw(st.booleans())},
        kw=draw(st.sampled_from([{}, {}, {"compression": "gzip"}, {"shuffle": True}])),
    )


def ax_tol(a):
    # the file stores offset and offset + scale
    return (1e-12, 4 * np.finfo(float).eps * (abs(a["offset"]) + abs(a["scale"])))


def check(case, ctx):
    from rsciio.emd import file_reader, file_writer

    c = case
    data = gen.make_array(c["data"])
    data = gen.relayout(data, c["layout"])
    wr = sigs.lazy_of(data, chunks=-1 if c["layout"] == "C" else 2) if c["lazy"] else data
    axes = [sigs.axis(i, s, **a) for i, (s, a) in enumerate(zip(data.shape, c["axes"]))]
    om = {k: {kk: un(v) for kk, v in d.items()} for k, d in c["om"].items()}
    sig = sigs.signal(wr, axes, metadata={"General": {"title": c["title"]}, "Signal": {"signal_type": ""}}, original_metadata=om)
    before = sigs.freeze(sig)
    p = ctx.path("w.emd")
    ctx.label(data.dtype.kind, f"nd{data.ndim}", "lazy-write" if c["lazy"] else "eager-write", f"chunks-{type(c['chunks']).__name__}")
    ctx.nontrivial(data.size > 1 or bool(om))
    ctx.sut(file_writer, p, sig, chunks=c["chunks"], **c["kw"])
    d = gen.deep_diff(before, sigs.freeze(sig))
    ctx.expect(d is None, "input-mutated", d)
    for lazy in (False, True):
        r = ctx.sut(file_reader, p, lazy=lazy)
        ctx.expect(len(r) == 1, "count", f"{len(r)}")
        r = r[0]
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], data, lazy=lazy)
        for a in r["axes"]:
            a["units"] = a["units"].replace(" ", "")
        sigs.check_axes(
            ctx,
            r["axes"],
            [dict(a, name=a["name"] or "", units=a["units"] or "", size=s, navigate=False, _tol=ax_tol(a)) for a, s in zip(c["axes"], data.shape)],
        )
        ctx.expect(r["metadata"]["General"]["title"] == c["title"], "title", f"{r['metadata']['General']}")
        ctx.expect(r["metadata"]["General"]["original_filename"] == "w.emd", "original_filename")
        got = r["original_metadata"]
        ctx.expect(got["EMD_version"] == "0.2", "version", f"{got['EMD_version']}")
        for k in ("microscope", "sample", "user", "comments"):
            d = gen.deep_diff(dict(got[k]), om.get(k, {}))
            ctx.expect(d is None, "original_metadata", f"{k}: {d}")


@st.composite
def foreign(draw):
    names = draw(
        st.lists(
            st.one_of(
                st.sampled_from(["a", "ab", "abc", "data_1", "data_10", "a/b", "x/a", "ab/c", "x", "science"]),
                st.from_regex(r"[a-z]{1,3}(/[a-z]{1,3})?", fullmatch=True),
            ),
            min_size=1,
            max_size=5,
            unique=True,
        )
    )
    # no group below another one: how these are combined is not specified
    keep = []
    for n in names:
        if not any(m.startswith(n + "/") or n.startswith(m + "/") for m in keep):
            keep.append(n)
    groups = []
    for n in keep:
        shape = draw(gen.shapes(1, 4, 1, 5))
        groups.append(
            dict(
                path=draw(st.sampled_from(["", "exp/"])) + n,
                data=(draw(st.sampled_from(DT)), shape, draw(gen.modes), draw(gen.seeds)),
                chunked=draw(st.booleans()),
                base=draw(st.sampled_from([1, 1, 0])),
                dims=[
                    dict(
                        full=draw(st.booleans()),
                        offset=draw(gen.floats(-1e3, 1e3)),
                        scale=draw(st.floats(1e-3, 1e3)),
                        name=draw(st.one_of(st.none(), gen.text(max_size=5, ascii_only=True))),
                        units=draw(st.sampled_from([None, "[n_m]", "nm", "[µ_m]", "A", "[s]", "eV"])),
                        bytes=draw(st.booleans()),
                    )
                    for _ in shape
                ],
            )
        )
    return dict(
        groups=groups,
        version=draw(st.sampled_from([("0", "2"), (0, 2), (0, 5), (1, 0)])),
        root_version=draw(st.booleans()),
        junk=draw(st.booleans()),
        select=draw(st.lists(st.integers(0, len(groups) - 1), min_size=1, max_size=3)),
        microscope=draw(attrs),
    )


U = {None: None, "[n_m]": "nm", "nm": "nm", "[µ_m]": "µm", "A": "Å", "[s]": "s", "eV": "eV"}


def check_foreign(case, ctx):
    import h5py

    from rsciio.emd import file_reader

    c = case
    p = ctx.path("f.emd")
    exp = {}
    with h5py.File(p, "w") as f:
        tgt = f if c["root_version"] else f.require_group("top")
        tgt.attrs["version_major"], tgt.attrs["version_minor"] = c["version"]
        m = f.require_group("microscope")
        for k, v in c["microscope"].items():
            m.attrs[k] = un(v)
        if c["junk"]:
            f.create_group("zz_other")["data"] = np.arange(3)  # not an emd group
        for g in c["groups"]:
            data = gen.make_array(g["data"])
            grp = f.require_group(g["path"])
            grp.attrs["emd_group_type"] = 1
            grp.create_dataset("data", data=data, chunks=tuple(max(1, s // 2) for s in data.shape) if g["chunked"] else None)
            if c["junk"]:
                grp["preview"] = np.arange(2)
            axes = []
            for i, (d, s) in enumerate(zip(g["dims"], data.shape)):
                v = d["offset"] + d["scale"] * np.arange(s if d["full"] else 2)
                ds = grp.create_dataset(f"dim{i + g['base']}", data=v)
                for k in ("name", "units"):
                    if d[k] is not None:
                        ds.attrs[k] = np.bytes_(d[k].encode()) if d["bytes"] and d[k] else d[k]
                axes.append(
                    dict(
                        name=d["name"],
                        units=U[d["units"]],
                        size=s,
                        offset=d["offset"],
                        scale=1.0 if len(v) == 1 else d["scale"],
                        _tol=(1e-9, 1e-11),
                    )
                )
            if g["base"] == 1:
                data, axes = data.T, axes[::-1]
            exp[g["path"] + "/data"] = (data, axes, g["path"].split("/")[-1])
    ctx.label(f"groups{len(c['groups'])}", "junk" if c["junk"] else "")
    ctx.nontrivial()

    def same(r, key, lazy):
        data, axes, title = exp[key]
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], data, lazy=lazy)
        sigs.check_axes(ctx, r["axes"], axes)
        ctx.expect(r["metadata"]["General"]["title"] == title, "title", f"{r['metadata']['General']['title']!r} != {title!r}")
        d = gen.deep_diff(dict(r["original_metadata"]["microscope"]), {k: un(v) for k, v in c["microscope"].items()})
        ctx.expect(d is None, "original_metadata", d)
        if c["root_version"]:
            v = ".".join(map(str, c["version"]))
            ctx.expect(r["original_metadata"]["EMD_version"] == v, "version")

    keys = sorted(exp)
    for lazy in (False, True):
        for stack in (None, False):
            r = ctx.sut(file_reader, p, lazy=lazy, stack_group=stack)
            ctx.expect(len(r) == len(exp), "count", f"{len(r)} signals for datasets {keys}")
            for x, k in zip(r, keys):
                same(x, k, lazy)
        sel = [c["groups"][i]["path"] + "/data" for i in c["select"]]
        given = list(sel)
        r = ctx.sut(file_reader, p, lazy=lazy, dataset_path=given)
        ctx.expect(given == sel, "argument-mutated", f"{given}")
        ctx.expect(len(r) == len(sel), "count")
        for x, k in zip(r, sel):
            same(x, k, lazy)
        r = ctx.sut(file_reader, p, lazy=lazy, dataset_path="/" + sel[0])
        ctx.expect(len(r) == 1, "count")
        same(r[0], sel[0], lazy)


PROP = Prop(
    "C09",
    "Random signals (16 dtypes, 1-4 dimensions, eager or dask, all chunk options, calibrations, names, titles and "
    "attribute groups) written and read back; and NCEM files generated with h5py holding one to five datasets at "
    "random (prefix-sharing, nested) paths with both dim numberings, read whole and by dataset_path. Non-trivial: "
    "more than one data value or some attributes (all generated files count).",
    [
        Sub("roundtrip", cases, check, quick=700, shards=4),
        Sub("foreign", foreign, check_foreign, quick=320, shards=4),
    ],
)

"""C10: NeXus files and the hdf5 utilities."""

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub, Violation

DT = gen.INTS + gen.FLOATS + gen.COMPLEX + [">i2", ">f8", "b1"]
word = st.from_regex(r"[A-Za-z][A-Za-z0-9_]{0,6}", fullmatch=True).filter(
    lambda w: w not in ("attrs", "value", "data", "auxiliary", "title") and not w.startswith("keys")
)
titles = gen.text(max_size=10, min_size=1, blacklist="/.").map(str.strip).filter(lambda t: t and t != "auxiliary" and not t.startswith("__"))

# leaf of a metadata tree: (kind, payload)
leaf = st.one_of(
    gen.text(max_size=10).map(str.rstrip).map(lambda v: ("py", v)),
    st.integers(-(2**60), 2**60).map(lambda v: ("py", v)),
    gen.floats().map(lambda v: ("py", v)),
    st.booleans().map(lambda v: ("py", v)),
    st.tuples(st.just("np"), st.sampled_from(["f4", "i2", "u8", "b1", "f8"]), st.integers(0, 100)),
    st.tuples(st.just("arr"), gen.arrays(["f8", "i4", "u1", "b1"], min_dims=1, max_dims=2, min_side=2, max_side=4)),
    st.lists(st.integers(-1000, 1000), min_size=2, max_size=4).map(lambda v: ("ints", tuple(v))),
    st.lists(gen.text(max_size=5, min_size=1, blacklist="").map(lambda s: s.strip()).filter(bool), min_size=2, max_size=3).map(lambda v: ("strs", tuple(v))),
)


def trees(max_leaves=8):
    return st.recursive(
        st.dictionaries(word, leaf, max_size=3),
        lambda c: st.dictionaries(word, st.one_of(leaf, c), max_size=3),
        max_leaves=max_leaves,
    )


attributes = st.dictionaries(word, st.one_of(gen.text(max_size=6).map(str.rstrip), st.integers(-(2**40), 2**40), gen.floats()), min_size=1, max_size=2)


@st.composite
def attributed(draw):
    """Items of a file of other software: with attributes, of groups too."""
    t = draw(trees(5))
    for k in list(t):
        if isinstance(t[k], dict) and draw(st.booleans()):
            t[k] = t[k] | {"attrs": ("attrs", draw(attributes))}
        elif not isinstance(t[k], dict) and t[k][0] in ("py", "arr", "np") and draw(st.booleans()):
            t[k] = ("att", t[k], draw(attributes))
    return t


def build(t):
    if isinstance(t, dict):
        return {k: build(v) for k, v in t.items()}
    if t[0] == "py":
        return t[1]
    if t[0] == "att":
        return {"value": build(t[1]), "attrs": dict(t[2])}
    if t[0] == "attrs":
        return dict(t[1])
    if t[0] == "np":
        return np.dtype(t[1]).type(t[2])
    if t[0] == "arr":
        return gen.make_array(t[1])
    if t[0] == "dicts":
        return [build(v) for v in t[1]]
    return list(t[1])


def contains(ctx, got, tree, path=""):
    """got holds at least what tree describes, read back as documented."""
    for k, t in tree.items():
        p = f"{path}.{k}"
        if k.startswith("_nxd_"):
            # data of another file are not written again as a dataset
            ctx.expect(k not in got, "metadata-nxdata", f"{p}")
            continue
        ctx.expect(k in got, "metadata-missing", f"{p}")
        g = got[k]
        if isinstance(t, dict):
            ctx.expect(isinstance(g, dict), "metadata-type", f"{p}: {g!r}")
            contains(ctx, g, t, p)
            continue
        if t[0] in ("att", "attrs"):
            att = g if t[0] == "attrs" else g["attrs"]
            for a, v in t[-1].items():
                ctx.expect(a in att and gen.same_scalar(att[a], v), "metadata-attribute", f"{p} {a}: {att} expected {v!r}")
            if t[0] == "attrs":
                continue
            t, g = t[1], g["value"]
        v = build(t)
        if t[0] == "dicts":
            # the axes of a signal, as the signals HyperSpy saves in metadata have them
            ctx.expect(isinstance(g, list) and len(g) == len(v), "metadata-list", f"{p}: {g!r}")
            for i, (a, b) in enumerate(zip(g, t[1])):
                contains(ctx, a, b, f"{p}[{i}]")
            continue
        if t[0] == "arr":
            ok = isinstance(g, np.ndarray) or hasattr(g, "__dask_keys__")
            g = sigs.compute(g)
            ok = ok and gen.arrays_equal(g, v)
        elif t[0] == "ints":
            g = sigs.compute(g)
            ok = gen.arrays_equal(g, np.array(v), dtype=False)
        elif t[0] == "strs":
            ok = [bytes(x).decode("utf-8") for x in sigs.compute(g)] == v
        else:
            ok = gen.same_scalar(g, v)
        ctx.expect(ok, "metadata-value", f"{p}: {g!r} expected {v!r}")


axis = st.fixed_dictionaries(dict(name=word.map(lambda v: ("py", v)), scale=gen.floats().map(lambda v: ("py", v)), size=st.integers(1, 9).map(lambda v: ("py", v)), navigate=st.booleans().map(lambda v: ("py", v))))


@st.composite
def originals(draw):
    """Original metadata, with what HyperSpy and other files put in it."""
    t = draw(st.one_of(trees(), attributed()))
    extra = draw(st.integers(0, 7))
    if extra == 0:
        t["_sig_" + draw(word)] = dict(axes=("dicts", tuple(draw(st.lists(axis, min_size=1, max_size=4)))), other=draw(leaf))
    if extra == 1:
        t["_nxd_" + draw(word)] = dict(attrs=("attrs", {"NX_class": "NXdata", "signal": "v"}), v=("arr", ("f8", (3,), "arange", 1)))
    return t


@st.composite
def one(draw, i):
    shape = draw(gen.shapes(1, 4, 1, 5))
    nsig = draw(st.integers(0, min(2, len(shape))))
    names = draw(st.lists(word, min_size=len(shape), max_size=len(shape), unique_by=lambda s: s.lower()))
    return dict(
        data=(draw(st.sampled_from(DT)), shape, draw(gen.modes), draw(gen.seeds)),
        lazy=draw(st.booleans()),
        nsig=nsig,
        axes=[
            dict(
                name=n,
                units=draw(st.sampled_from(["nm", "µm", "", "1/nm", "eV", None])),
                scale=draw(gen.scales) * draw(st.sampled_from([1, 1, 1, -1])),
                offset=draw(gen.offsets),
            )
            for n in names
        ],
        title=draw(titles),
        general=draw(st.dictionaries(st.sampled_from(["date", "time", "authors", "doi", "notes"]), leaf.filter(lambda v: v[0] == "py"), max_size=3)),
        md=draw(trees()),
        om=draw(originals()),
        learning=draw(st.one_of(st.none(), st.none(), st.dictionaries(word, st.one_of(st.just(None), leaf), min_size=1, max_size=4))),
        spell=draw(st.sampled_from(["plain", "plain", "plain", "slash", "underscores"])),
    )


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    return dict(
        sigs=[draw(one(i)) for i in range(n)],
        save_om=draw(st.sampled_from([True, True, False])),
        use_default=draw(st.booleans()),
        compression=draw(st.sampled_from([None, "gzip", "lzf"])),
        skip=draw(st.booleans()),
        mkeys=draw(st.lists(st.sampled_from(["a", "e", "attrs", "x", "d", "B"]), min_size=1, max_size=2)),
    )


def flat_tree(t, path=()):
    out = {}
    for k, v in t.items():
        if isinstance(v, dict):
            out.update(flat_tree(v, path + (k,)))
        else:
            out[path + (k,)] = v
    return out


def check(case, ctx):
    from rsciio.nexus import file_reader, file_writer

    c = case
    ins = []
    for i, s in enumerate(c["sigs"]):
        data = gen.make_array(s["data"])
        nd = data.ndim
        axes = [sigs.axis(i, n, navigate=i < nd - s["nsig"], **a) for i, (n, a) in enumerate(zip(data.shape, s["axes"]))]
        md = {k: v for k, v in build(s["md"]).items() if k != "General"}
        # no title of a group starts with two underscores or has slashes
        title = {"plain": s["title"], "slash": s["title"][:1] + "/" + s["title"][1:], "underscores": "__" + s["title"]}[s["spell"]]
        s = dict(s, title=title.replace("/", "_") if s["spell"] == "slash" else s["title"])
        if s["title"].startswith("__"):
            s["title"] = s["title"][2:]
        s["title"] = s["title"] or f"unnamed__{i}"
        md["General"] = dict({k: v[1] for k, v in s["general"].items()}, title=title)
        ins.append((s, data, sigs.signal(sigs.lazy_of(data, chunks=2) if s["lazy"] else gen.relayout(data, s["data"][3]), axes, metadata=md, original_metadata=build(s["om"]))))
        if s["learning"] is not None:
            ins[-1][2]["learning_results"] = {k: v if v is None else build(v) for k, v in s["learning"].items()}
    p = ctx.path("n.nxs")
    skip = None
    if c["skip"] and c["sigs"][0]["om"]:
        skip = sorted(c["sigs"][0]["om"])[0]
    before = [sigs.freeze(x[2]) for x in ins]
    arg = [x[2] for x in ins]
    ctx.label(f"signals{len(ins)}", f"nd{ins[0][1].ndim}", ins[0][1].dtype.kind, "default" if c["use_default"] else "")
    ctx.nontrivial(any(x[1].size > 1 for x in ins))
    ctx.sut(
        file_writer,
        p,
        arg if len(arg) > 1 else arg[0],
        save_original_metadata=c["save_om"],
        skip_metadata_key=skip,
        use_default=c["use_default"],
        compression=c["compression"],
    )
    d = gen.deep_diff(before, [sigs.freeze(x[2]) for x in ins])
    ctx.expect(d is None, "input-mutated", d)

    def same(r, s, data, lazy):
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], data, lazy=lazy)
        nd = data.ndim
        exp = []
        for i, (a, n) in enumerate(zip(s["axes"], data.shape)):
            eps = 8 * np.finfo(float).eps * (abs(a["offset"]) + abs(a["scale"]))
            exp.append(dict(a, size=n, navigate=i < nd - s["nsig"], units=a["units"] or "", scale=a["scale"] if n > 1 else 1, _tol=(1e-12, eps)))
        sigs.check_axes(ctx, r["axes"], exp)
        ctx.expect(r["metadata"]["General"]["title"] == s["title"], "title", f"{r['metadata']['General']}")
        contains(ctx, r["metadata"], {k: v for k, v in s["md"].items() if k != "General"})
        contains(ctx, r["metadata"]["General"], s["general"])
        learn = {k: v for k, v in (s["learning"] or {}).items() if v is not None}
        if learn:
            ctx.label("learning results")
            contains(ctx, r["attributes"]["learning_results"], learn)
        elif s["learning"] is None:
            ctx.expect(not sigs.get(r, "attributes.learning_results"), "learning-results", f"{r.get('attributes')}")
        if c["save_om"]:
            om = {k: v for k, v in s["om"].items() if k != skip}

            def prune(t):
                return {k: prune(v) if isinstance(v, dict) else v for k, v in t.items() if k != skip}

            if om:
                contains(ctx, r["original_metadata"], prune(s["om"]))
            if skip:
                ctx.expect(skip not in r["original_metadata"], "skip_metadata_key", f"{skip}")

    for lazy in (False, True):
        r = ctx.sut(file_reader, p, lazy=lazy, nxdata_only=True)
        ctx.expect(len(r) == len(ins), "count", f"{len(r)} != {len(ins)}")
        for x, (s, data, _) in zip(r, ins):
            same(x, s, data, lazy)
    r = ctx.sut(file_reader, p, nxdata_only=True, use_default=True)
    if c["use_default"]:
        ctx.expect(len(r) == 1, "default-count", f"{len(r)}")
        same(r[0], ins[0][0], ins[0][1], False)
    i = len(ins) - 1
    path = f"/entry{i + 1}/{ins[i][0]['title']}"
    r = ctx.sut(file_reader, p, dataset_path=path)
    ctx.expect(len(r) == 1, "dataset_path-count", f"{len(r)} signals for {path}")
    same(r[0], ins[i][0], ins[i][1], False)
    if c["save_om"] and not skip and ins[i][0]["om"] and not any(k.startswith(("_sig_", "_nxd_")) for k in ins[i][0]["om"]):
        # only the items whose path contains one of the strings
        r = ctx.sut(file_reader, p, dataset_path=path, metadata_key=c["mkeys"])[0]["original_metadata"]
        paths = {k for k in flat(build(ins[i][0]["om"])) if any(m in "/".join(k[:j]) for m in c["mkeys"] for j in range(1, len(k) + 1))}
        got = {k for k in flat(r) if "NX_class" not in k}
        ctx.expect(got == paths, "metadata_key", f"{c['mkeys']}: {sorted(got ^ paths)}")
        ctx.label("metadata_key")


# ---------------------------------------------------------------- any hdf5 tree


@st.composite
def node(draw, depth):
    k = draw(st.integers(0, 5))
    if depth == 0 or k < 3:
        return dict(
            t="ds",
            v=draw(
                st.one_of(
                    st.tuples(st.just("arr"), gen.arrays(["f8", "i2", "u1", ">f4"], min_dims=0, max_dims=3, min_side=1, max_side=3)),
                    gen.text(max_size=6).map(str.rstrip).map(lambda v: ("str", v)),
                    st.lists(st.text("abcd", min_size=1, max_size=3), min_size=2, max_size=3).map(lambda v: ("bytes", tuple(v))),
                )
            ),
            attrs=draw(st.dictionaries(word, attr, max_size=2)),
        )
    return dict(
        t="grp",
        cls=draw(st.sampled_from([None, None, "NXentry", "NXcollection", "NXdata", b"NXdata"])),
        signal=draw(st.booleans()),
        attrs=draw(st.dictionaries(word, attr, max_size=2)),
        ch=draw(st.dictionaries(names, node(depth - 1), max_size=3)),
    )


names = st.sampled_from(["a", "ab", "Fe", "instrument", "keys", "entry", "data", "EDS", "x1", "b c", "keysmap"])
attr = st.one_of(
    gen.text(max_size=6).map(str.rstrip),
    st.integers(-(2**40), 2**40),
    gen.floats(-1e9, 1e9),
    st.lists(st.integers(0, 9), min_size=1, max_size=3).map(tuple),
)


@st.composite
def hdfs(draw):
    root = draw(st.dictionaries(names, node(2), min_size=1, max_size=4))
    return dict(
        root=root,
        attrs=draw(st.dictionaries(word, attr, max_size=2)),
        link=draw(st.integers(0, 5)),
        keys=draw(st.one_of(st.none(), st.sampled_from(["a", "Fe", "entry/", "/a", "zz"]), st.lists(st.sampled_from(["a", "Fe", "EDS", "instrument", "x1", "/data"]), min_size=1, max_size=3))),
        mkeys=draw(st.one_of(st.none(), st.sampled_from(["a", "Fe", "entry/", "ab", "attrs", "zz"]), st.lists(st.sampled_from(["a", "Fe", "EDS", "x1"]), min_size=1, max_size=3))),
        hard=draw(st.booleans()),
        skip=draw(st.booleans()),
        lazy=draw(st.booleans()),
        pick=draw(st.integers(0, 20)),
    )


def ds_value(v):
    if v[0] == "arr":
        return gen.make_array(v[1])
    if v[0] == "str":
        return v[1]
    return np.array([x.encode() for x in v[1]])


def put(g, ch):
    for k, n in ch.items():
        if n["t"] == "ds":
            o = g.create_dataset(k, data=ds_value(n["v"]))
        else:
            o = g.create_group(k)
            if n["cls"] is not None:
                o.attrs["NX_class"] = np.bytes_(n["cls"]) if isinstance(n["cls"], bytes) else n["cls"]
            if n["signal"]:
                o.attrs["signal"] = "data"
            put(o, n["ch"])
        for a, v in n["attrs"].items():
            if a not in ("signal", "target", "NX_class", "default", "axes", "interpretation", "chunks"):
                o.attrs[a] = np.array(v) if isinstance(v, tuple) else v


def attr_model(a, out):
    for k, v in a.items():
        if k not in ("signal", "target", "NX_class", "default", "axes", "interpretation", "chunks"):
            if isinstance(v, tuple):
                v = v[0] if len(v) == 1 else np.array(v)
            out[k] = v
    return out


def val_model(v):
    v = ds_value(v)
    if isinstance(v, np.ndarray) and v.size < 2:
        v = v[...].item()
    return v


def is_nx(n):
    return n["cls"] in ("NXdata", b"NXdata")


def fixk(k):
    return "fix_" + k if k.startswith("keys") else k


def meta_model(ch, attrs, skip):
    out = {}
    if attrs:
        out["attrs"] = {fixk(k): v for k, v in attrs.items()}
    for k, n in ch.items():
        k = fixk(k)
        if n["t"] == "grp":
            if is_nx(n):
                continue
            a = attr_model(n["attrs"], {})
            if n["cls"] is not None:
                a["NX_class"] = n["cls"]
            if n["signal"]:
                a["signal"] = "data"
            out[k] = meta_model(n["ch"], a, skip)
        else:
            a = attr_model(n["attrs"], {})
            v = ds_value(n["v"])
            show = not skip or (n["v"][0] == "str") or (n["v"][0] == "arr" and v.size < 2 and v.ndim == 0)
            if a:
                out[k] = {"attrs": a}
                if show:
                    out[k]["value"] = val_model(n["v"])
            elif show:
                out[k] = val_model(n["v"])
    return out


def flat(d, path=()):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update(flat(v, path + (k,)))
        else:
            out[path + (k,)] = v
    return out


def find_model(ch, path=""):
    nx, ds = [], []
    for k in sorted(ch, key=lambda s: s.encode()):
        n = ch[k]
        p = f"{path}/{k}"
        if n["t"] == "link":
            n = n["to"]
        if n["t"] == "grp":
            if is_nx(n) and n["signal"]:
                nx.append(p)
            a, b = find_model(n["ch"], p)
            nx += a
            ds += b
        elif n["v"][0] != "str" and np.size(ds_value(n["v"])) >= 2:
            ds.append(p)
    return nx, ds


def check_hdf(case, ctx):
    import h5py

    from rsciio.nexus import file_reader
    from rsciio.utils.hdf5 import list_datasets_in_file, read_metadata_from_file

    c = case
    p = ctx.path("any.h5")
    root = dict(c["root"])
    with h5py.File(p, "w") as f:
        put(f, root)
        for a, v in c["attrs"].items():
            f.attrs[a] = np.array(v) if isinstance(v, tuple) else v
        tops = sorted(root)
        if c["link"] < len(tops):
            f["zlink"] = h5py.SoftLink("/" + tops[c["link"]])
    linked = dict(root)
    if c["link"] < len(tops):
        linked["zlink"] = dict(t="link", to=root[tops[c["link"]]])
    nx, ds = find_model(root if c["hard"] else linked)
    keys = [c["keys"]] if isinstance(c["keys"], str) else c["keys"]
    if keys is not None:
        nx = [x for x in nx if any(k in x for k in keys)]
        ds = [x for x in ds if any(k in x for k in keys)]
    ctx.label("hardlinks" if c["hard"] else "all", "keys" if keys else "no-keys", "nxdata" if nx else "", "links" if "zlink" in linked else "")
    ctx.nontrivial(len(nx) + len(ds) > 0)
    got = ctx.sut(list_datasets_in_file, p, dataset_key=c["keys"], hardlinks_only=c["hard"], verbose=False)
    ctx.expect(list(got[0]) == nx, "listed-nxdata", f"{got[0]} expected {nx}")
    ctx.expect(list(got[1]) == ds, "listed-datasets", f"{got[1]} expected {ds}")

    full = dict(linked)
    if "zlink" in full:
        full["zlink"] = full["zlink"]["to"]
    model = meta_model(full, {k: (v[0] if len(v) == 1 else np.array(v)) if isinstance(v, tuple) else v for k, v in c["attrs"].items()}, c["skip"])
    got = ctx.sut(read_metadata_from_file, p, skip_array_metadata=c["skip"])
    d = gen.deep_diff(flat(got), flat(model), dtype=False)
    ctx.expect(d is None, "metadata", d)
    mk = [c["mkeys"]] if isinstance(c["mkeys"], str) else c["mkeys"]
    if mk is not None:
        got = ctx.sut(read_metadata_from_file, p, metadata_key=c["mkeys"], skip_array_metadata=c["skip"])
        exp = {k: v for k, v in flat(model).items() if any(s in "/".join(k[:i]) for s in mk for i in range(1, len(k) + 1))}
        d = gen.deep_diff(flat(got), exp, dtype=False)
        ctx.expect(d is None, "metadata-selected", d)
    # plain datasets are returned with their data, whatever the other options
    inside = [x for x in ds if not in_nxdata(full, x)]
    if inside:
        path = inside[c["pick"] % len(inside)]
        r = ctx.sut(file_reader, p, dataset_path=path, lazy=c["lazy"], hardlinks_only=c["hard"])
        ctx.expect(len(r) == 1, "dataset_path", f"{len(r)} signals for {path}")
        n = full
        for k in path[1:].split("/"):
            n = n[k]["ch"] if isinstance(n.get(k), dict) and n[k]["t"] == "grp" else n[k]
        v = ds_value(n["v"])
        sigs.check_structure(ctx, r[0])
        sigs.check_data(ctx, r[0]["data"], v, lazy=c["lazy"])
        ctx.expect(r[0]["metadata"]["General"]["title"] == path[1:].replace("/", "_"), "title", f"{r[0]['metadata']}")
    r = ctx.sut(file_reader, p, dataset_path="/not/here")
    ctx.expect(r == [], "absent-path", f"{len(r)} signals")


def in_nxdata(tree, path):
    """below a group that declares a signal (its axes or the signal itself)"""
    n = tree
    parts = path[1:].split("/")
    for k in parts[:-1]:
        g = n[k]
        if g["signal"] or is_nx(g):
            return True
        n = g["ch"]
    return False


# ---------------------------------------------------------------- NXdata of other software


@st.composite
def nxdatas(draw):
    shape = draw(gen.shapes(1, 4, 2, 5))
    nd = len(shape)
    perm = draw(st.permutations(range(nd)))
    kinds = [draw(st.sampled_from(["linear", "linear", "one", "nonlinear", "."])) for _ in shape]
    if "." in kinds:
        perm = list(range(nd))
    nm = draw(st.lists(word, min_size=nd, max_size=nd, unique_by=lambda s: s.lower()))
    return dict(
        data=(draw(st.sampled_from(["u2", "f4", "i4", ">f8"])), shape, draw(gen.modes), draw(gen.seeds)),
        perm=tuple(perm),
        kinds=tuple("linear" if k == "one" else k for k in kinds),
        names=tuple(nm),
        scale=tuple(draw(st.floats(0.01, 100)) * draw(st.sampled_from([1, -1])) for _ in shape),
        offset=tuple(draw(gen.floats(-1e3, 1e3)) for _ in shape),
        units=tuple(draw(st.sampled_from([None, "nm", "eV"])) for _ in shape),
        style=draw(st.sampled_from(["array", "bytes", "comma", "none"])) if nd > 1 else draw(st.sampled_from(["array", "comma", "none"])),
        indices=draw(st.sampled_from(["scalar", "array"])) if tuple(perm) != tuple(range(nd)) else draw(st.sampled_from(["scalar", "array", None])),
        interpretation=draw(st.sampled_from([None, "spectrum", "image"] if nd > 1 else [None, "spectrum"])),
        signal=draw(st.sampled_from(["data", "counts", 1, "1"])),
        meta=draw(st.booleans()),
        chunks=draw(st.booleans()),
        at_root=draw(st.booleans()),
    )


def check_nxdata(case, ctx):
    import h5py

    from rsciio.nexus import file_reader

    c = case
    data = gen.make_array(c["data"])
    nd = data.ndim
    key = c["signal"] if c["signal"] not in (1, "1") else "data"
    if key in c["names"]:
        ctx.expect(True, "")
        return
    p = ctx.path("nx.nxs")
    with h5py.File(p, "w") as f:
        g = f.create_group("nx" if c["at_root"] else "entry/nx")
        g.attrs["NX_class"] = "NXdata"
        g.attrs["signal"] = c["signal"]
        g[key] = data
        if c["chunks"]:
            g[key].attrs["chunks"] = np.full(nd, 2)
        if not c["at_root"] and c["meta"]:
            f["entry/instrument/name"] = "a beam"
            f["entry/sample/mass"] = 2.5
            f["entry/sample/mass"].attrs["units"] = "mg"
        lst = []
        exp = [None] * nd
        for i in range(nd):  # i-th name describes dimension perm[i]
            dim = c["perm"][i]
            k, n = c["kinds"][i], data.shape[dim]
            if k == "." or c["style"] == "none":
                lst.append(".")
                exp[dim] = dict(scale=1, offset=0.0, size=n, navigate=c["style"] == "none")
                continue
            nm = c["names"][i]
            v = c["offset"][i] + c["scale"][i] * np.arange(n)
            if k == "nonlinear" and n > 2:
                v[-1] += c["scale"][i] * 0.5
            ds = g.create_dataset(nm, data=v)
            if c["units"][i]:
                ds.attrs["units"] = c["units"][i]
            if c["indices"] == "scalar":
                g.attrs[nm + "_indices"] = dim
            elif c["indices"] == "array":
                g.attrs[nm + "_indices"] = np.array([dim])
            lst.append(nm)
            if k == "nonlinear" and n > 2:
                exp[dim] = dict(name=nm, scale=1, offset=0, size=n, navigate=True)
            else:
                exp[dim] = dict(name=nm, scale=c["scale"][i], offset=c["offset"][i], size=n, units=c["units"][i] or "", navigate=True, _tol=(1e-9, 1e-11))
        if c["style"] == "array":
            g.attrs["axes"] = lst
        elif c["style"] == "bytes":
            g.attrs["axes"] = np.array([x.encode() for x in lst])
        elif c["style"] == "comma":
            g.attrs["axes"] = ",".join(lst)
        if c["interpretation"]:
            g.attrs["interpretation"] = c["interpretation"]
            for e in exp:
                e["navigate"] = True
            exp[-1]["navigate"] = False
            if c["interpretation"] == "image":
                exp[-2]["navigate"] = False
    ctx.label(c["style"], c["interpretation"] or "", f"nd{nd}", "permuted" if c["perm"] != tuple(range(nd)) else "")
    ctx.nontrivial()
    for lazy in (False, True):
        r = ctx.sut(file_reader, p, lazy=lazy, nxdata_only=True)
        ctx.expect(len(r) == 1, "count", f"{len(r)}")
        sigs.check_structure(ctx, r[0])
        sigs.check_data(ctx, r[0]["data"], data, lazy=lazy)
        sigs.check_axes(ctx, r[0]["axes"], exp)
        ctx.expect(r[0]["metadata"]["General"]["title"] == "nx", "title")
        if lazy and c["chunks"]:
            ctx.expect(r[0]["data"].chunksize == tuple(min(2, n) for n in data.shape), "chunks", f"{r[0]['data'].chunksize}")
    if not c["at_root"] and c["meta"]:
        om = r[0]["original_metadata"]
        exp = {("instrument", "name"): "a beam", ("sample", "mass", "value"): 2.5, ("sample", "mass", "attrs", "units"): "mg"}
        d = gen.deep_diff(flat(om), exp, dtype=False)
        ctx.expect(d is None, "original-metadata", d)
        om = ctx.sut(file_reader, p, nxdata_only=True, metadata_key="mass")[0]["original_metadata"]
        d = gen.deep_diff(flat(om), {("entry",) + k: v for k, v in exp.items() if "mass" in k}, dtype=False)
        ctx.expect(d is None, "original-metadata-key", d)


def probe_ragged(ctx):
    from rsciio.nexus import file_writer

    s = sigs.signal(np.arange(3.0), [sigs.axis(0, 3)], original_metadata={"a": [[1, 2], [3]]})
    try:
        file_writer(ctx.path("r.nxs"), s)
    except ValueError as e:
        raise Violation("ragged-list", str(e))


PROP = Prop(
    "C10",
    "Lists of one to three random signals (16 dtypes, 0-2 signal dimensions, negative scales, metadata trees of "
    "scalars, numpy scalars, arrays and string lists) written with every option and read back; random HDF5 trees "
    "with NXdata groups, soft links and attributes, listed, searched and read against a model of the tree; NXdata "
    "groups with every spelling of the axes attribute, permuted indices and non-linear axes. Non-trivial: more than "
    "one data value / at least one listed dataset.",
    [
        Sub("roundtrip", cases, check, quick=300, shards=4),
        Sub("hdf", hdfs, check_hdf, quick=500, shards=2),
        Sub("nxdata", nxdatas, check_nxdata, quick=400, shards=2),
    ],
    probes={"K-C10-1": probe_ragged},
)

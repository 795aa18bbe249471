"""Generators and oracle shared by the hspy / zspy properties."""

import hypothesis.strategies as st
import numpy as np

from . import gen

# Keys: non-empty, no path separators or dots (hdf5/zarr path syntax and the
# metadata tree syntax), not in the reserved "_..." namespace of the format.
key = st.one_of(
    st.sampled_from(["a", "b", "General x", "TEM", "Detector", "0", "10", "data", "units", "µ-key"]),
    gen.text(max_size=8, min_size=1, blacklist="/.\\\x00").filter(
        lambda s: not s.startswith("_") and s.strip() == s
    ),
)

string = st.one_of(
    gen.text(max_size=20),
    st.sampled_from(["", " ", "None", "True", "1.0", "é", "ABC\nDEF", "$\\alpha$", "/a/b"]),
)
ints = st.one_of(st.integers(-100, 100), st.integers(-(2**63), 2**63 - 1))
flts = st.one_of(
    st.sampled_from([0.0, 1.5, -0.1, 1e300, float("inf")]),
    st.floats(allow_nan=False, allow_infinity=False),
)


def norm_container(v):
    """Documented rule: the innermost homogeneous containers pass through a
    numpy array (numbers become strings if a string is present, etc.)."""
    typ = type(v)
    if len(v) == 0:
        return typ()
    try:
        tmp = np.array(v)
    except ValueError:
        tmp = np.array([[0]])
    if tmp.dtype == object or tmp.ndim != 1:
        return typ(norm(x) for x in v)
    return typ(tmp.tolist())


def norm(v):
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return norm_container(v)
    if isinstance(v, Arr):
        return v.value()
    return v


class Arr:
    """Picklable array placeholder (kept symbolic so that cases print well)."""

    def __init__(self, spec, strings=None):
        self.spec = spec
        self.strings = strings

    def value(self):
        if self.strings is not None:
            return np.array(self.strings)
        return gen.make_array(self.spec)

    def __repr__(self):
        return f"Arr({self.strings if self.strings is not None else self.spec})"

    def __reduce__(self):
        return (Arr, (self.spec, self.strings))


class Ragged(Arr):
    """Array of arrays, as the markers of hyperspy keep their positions."""

    def __init__(self, spec, inner):
        self.spec, self.inner = spec, inner

    def value(self):
        dt, shape, seed = self.spec
        out = np.empty(shape, dtype=object)
        for n, (i, sh) in enumerate(zip(np.ndindex(*shape), self.inner)):
            a = gen.make_array(("i4" if dt == "str" else dt, sh, "random", seed + n))
            out[i] = a.astype("U8") if dt == "str" else a
        return out

    def __repr__(self):
        return f"Ragged({self.spec}, {self.inner})"

    def __reduce__(self):
        return (Ragged, (self.spec, self.inner))


@st.composite
def ragged_leaf(draw):
    shape = draw(gen.shapes(1, 2, 1, 3))
    n = int(np.prod(shape))
    nd = draw(st.sampled_from([1, 2]))
    inner = draw(st.lists(gen.shapes(nd, nd, 1, 4), min_size=n, max_size=n))
    return Ragged((draw(st.sampled_from(["f8", "i4", "str"])), shape, draw(gen.seeds)), inner)


def realise(v):
    if isinstance(v, dict):
        return {k: realise(x) for k, x in v.items()}
    if isinstance(v, list):
        return [realise(x) for x in v]
    if isinstance(v, tuple):
        return tuple(realise(x) for x in v)
    if isinstance(v, Arr):
        return v.value()
    return v


meta_arrays = st.one_of(
    gen.arrays(["f8", "f4", "i4", "i8", "u1", "u2", "b1", "c16"], min_dims=1, max_dims=3, max_side=5).map(Arr),
    st.lists(gen.text(max_size=5, min_size=1, ascii_only=True).filter(lambda s: not s.endswith("\x00")), min_size=1, max_size=4).map(
        lambda s: Arr(None, s)
    ),
)

scalar = st.one_of(st.none(), st.booleans(), ints, flts, string)

homog = st.one_of(
    st.lists(st.integers(-1000, 1000), max_size=14),
    st.lists(gen.floats(-1e6, 1e6), max_size=14),
    st.lists(string.filter(lambda s: not s.endswith("\x00")), max_size=14),
    st.lists(st.booleans(), max_size=6),
    st.lists(st.one_of(st.integers(-9, 9), gen.text(max_size=4)), max_size=5),
)
containers = st.one_of(homog, homog.map(tuple))


def tree(extra=None, leaves=10, ragged=True):
    leaf = st.one_of(scalar, scalar, containers, meta_arrays)
    value = st.recursive(
        leaf,
        lambda c: st.one_of(
            st.dictionaries(key, c, max_size=4),
            st.lists(st.one_of(c, st.none(), st.dictionaries(key, scalar, max_size=2)), max_size=4),
            st.lists(c, max_size=3).map(tuple),
        ),
        max_leaves=leaves,
    )
    # long heterogeneous lists: order must survive past ten elements
    long_list = st.lists(
        st.one_of(st.dictionaries(key, st.integers(0, 99), min_size=1, max_size=1), st.none(), homog), min_size=11, max_size=23
    )
    # binary strings are supported as values of a dictionary (not inside containers)
    ex = ([extra] if extra is not None else []) + ([ragged_leaf()] if ragged else [])
    return st.dictionaries(key, st.one_of(value, value, value, value, long_list, long_list.map(tuple), *ex), max_size=5)


titles = st.one_of(
    st.sampled_from(["", "t", "My signal", "a/b", "/lead", "trail/", "%d x", "été", "a.b"]),
    gen.text(max_size=15, blacklist="\x00"),
    st.sampled_from([".", "..", "a\\b", "\\", " a ", " ", "./a", "a/../b"]),
)


@st.composite
def axes_for(draw, shape, ndim_sig):
    axes = []
    nd = len(shape)
    for i, s in enumerate(shape):
        kind = draw(st.sampled_from(["uniform", "uniform", "uniform", "data", "func"]))
        ax = dict(
            name=draw(st.one_of(st.none(), gen.text(max_size=6), st.just("x"))),
            units=draw(st.one_of(st.none(), st.sampled_from(["nm", "µm", "eV", "1/nm", "Å", ""]))),
            navigate=i < nd - ndim_sig,
            is_binned=draw(st.booleans()),
        )
        if draw(st.booleans()):
            ax["index_in_array"] = i
        if kind == "uniform":
            ax.update(_type="UniformDataAxis", offset=draw(gen.offsets), scale=draw(gen.scales), size=s)
        elif kind == "data":
            ax.update(_type="DataAxis", axis=np.cumsum(gen.make_array(("f8", (s,), "arange", draw(gen.seeds))) + 1.0))
        else:
            ax.update(
                _type="FunctionalDataAxis",
                expression=draw(st.sampled_from(["a * x + b", "x ** power", "1240 / x"])),
                size=s,
                x=dict(name=None, units=None, navigate=False, is_binned=False, _type="UniformDataAxis", scale=1.0, offset=1.0, size=s),
                a=draw(gen.scales),
                b=draw(gen.offsets),
            )
        axes.append(ax)
    return axes


RGB = ["rgb8", "rgba8", "rgb16", "rgba16"]


@st.composite
def data_spec(draw, ragged=True, max_side=6):
    """(kind, ...) description of the data array."""
    kind = draw(st.sampled_from(["plain"] * 8 + ["rgb"] + (["ragged", "ragged"] if ragged else [])))
    if kind == "plain":
        spec = draw(gen.arrays(gen.INTS + gen.FLOATS + gen.COMPLEX + ["b1", ">u2", ">f4"], min_dims=1, max_dims=4, max_side=max_side))
        layout = draw(st.sampled_from(["C", "C", "F", "strided"]))
        return dict(kind="plain", spec=spec, layout=layout)
    if kind == "rgb":
        name = draw(st.sampled_from(RGB))
        shape = draw(gen.shapes(1, 3, 1, 5))
        return dict(kind="rgb", name=name, shape=shape, seed=draw(gen.seeds))
    shape = draw(gen.shapes(1, 3, 1, 4))
    inner_nd = draw(st.sampled_from([1, 1, 2]))
    dt = draw(st.sampled_from(["f8", "i4", "f4", "u2", "str"]))
    n = int(np.prod(shape))
    inner = [draw(gen.shapes(inner_nd, inner_nd, 1, 4)) for _ in range(n)]
    return dict(kind="ragged", shape=shape, inner=inner, dtype=dt, seed=draw(gen.seeds), layouts=draw(st.booleans()))


def make_data(d):
    if "array" in d:
        return d["array"]
    if d["kind"] == "plain":
        a = gen.make_array(d["spec"])
        if d["layout"] == "F":
            a = np.asfortranarray(a)
        elif d["layout"] == "strided":
            b = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
            v = b[tuple(slice(None, None, 2) for _ in a.shape)]
            v[...] = a
            a = v
        return a
    if d["kind"] == "rgb":
        from rsciio.utils.rgb import RGB_DTYPES

        dt = RGB_DTYPES[d["name"]]
        base = gen.make_array((dt.fields["R"][0].str, tuple(d["shape"]) + (len(dt.names),), "random", d["seed"]))
        return np.ascontiguousarray(base).view(dt).reshape(d["shape"])
    out = np.empty(d["shape"], dtype=object)
    for n, (ind, sh) in enumerate(zip(np.ndindex(*d["shape"]), d["inner"])):
        if d["dtype"] == "str":
            k = int(np.prod(sh))
            a = np.array([("s%d" % ((i * 31 + n * 7 + d["seed"]) % 10007)) for i in range(k)]).reshape(sh)
        else:
            a = gen.make_array((d["dtype"], sh, "arange", d["seed"] + 13 * n))
        out[ind] = gen.relayout(a, d["seed"] + n) if d.get("layouts") else a
    return out


def data_shape(d):
    return tuple(d["spec"][1]) if d["kind"] == "plain" else tuple(d["shape"])


@st.composite
def arrays(draw, max_side=8):
    """Signals with little metadata: all kinds of data, layouts and chunks."""
    d = draw(data_spec(max_side=max_side))
    if draw(st.booleans()) and d["kind"] != "ragged":
        d = draw(data_spec(max_side=max_side))
    shape = data_shape(d)
    nsig = 0 if d["kind"] == "ragged" else draw(st.integers(0, len(shape)))
    return dict(
        arrays=True,
        nested=None,
        data=d,
        axes=draw(axes_for(shape, nsig)),
        metadata=dict(General=dict(title="t")),
        original_metadata={},
        learning_results={},
        attributes={},
        models={},
        lazy=draw(st.booleans()),
        chunks=tuple(draw(gen.compositions(s)) for s in shape),
    )


@st.composite
def chunked(draw):
    """Lazy data in irregular chunks, several tasks writing at once."""
    n = draw(st.integers(20_000, 200_000))
    a = draw(st.integers(8, 120))
    shape = (a, n // a)
    if draw(st.booleans()):
        shape = shape[::-1]
    return dict(dtype=draw(st.sampled_from(["u1", "u2", "f8"])), shape=shape, nsig=draw(st.integers(0, 2)), seed=draw(gen.seeds), lazy=True, chunks=None, irregular=True)


@st.composite
def signal(draw, bytes_ok=False, ragged=True, max_side=6):
    d = draw(data_spec(ragged=ragged, max_side=max_side))
    shape = data_shape(d)
    nsig = 0 if d["kind"] == "ragged" else draw(st.integers(0, len(shape)))
    extra = None
    if bytes_ok:
        b = st.binary(min_size=1, max_size=8)
        extra = st.one_of(b.map(lambda b: b + b"\x00\xff" + b), b.map(lambda b: b"\x80" + b))
    lazy = draw(st.booleans())
    # regular or irregular chunks
    chunks = tuple(draw(st.integers(1, s)) for s in shape) if draw(st.booleans()) else tuple(draw(gen.compositions(s)) for s in shape)
    md = draw(tree(extra))
    md.pop("General", None)
    general = dict(title=draw(titles))
    if draw(st.booleans()):
        general.update(date="2020-01-02", time="03:04:05", time_zone="UTC", authors="µ & co")
    md["General"] = general
    models = {}
    if draw(st.integers(0, 4)) == 0:
        models = {"model a": {"components": draw(tree(extra, 4)), "n": 1}}
    sub = None
    if draw(st.integers(0, 3)) == 0:
        ss = draw(gen.arrays(["f8", "i4", "u1"], min_dims=1, max_dims=3, max_side=4))
        sub = dict(data=Arr(ss), axes=draw(axes_for(ss[1], 1)), metadata=dict(General=dict(title=draw(titles))), where=draw(st.sampled_from(["dict", "list"])))
    return dict(
        nested=sub,
        data=d,
        axes=draw(axes_for(shape, nsig)),
        metadata=md,
        original_metadata=draw(tree(extra, 6)),
        learning_results=draw(st.one_of(st.just({}), tree(None, 4))),
        attributes=draw(st.one_of(st.just({}), tree(None, 3))),
        models=models,
        lazy=lazy,
        chunks=chunks,
    )


def build(case):
    """The signal dictionary to hand to the writer."""
    import dask.array as da

    data = make_data(case["data"])
    if case["lazy"]:
        data = da.from_array(data, chunks=case["chunks"])
    attrs = realise(case["attributes"])
    attrs["_lazy"] = case["lazy"]
    attrs["ragged"] = case["data"]["kind"] == "ragged"
    metadata = realise(case["metadata"])
    sub = case.get("nested")
    if sub:
        # the representation hyperspy uses for a signal stored in the metadata
        sd = dict(
            data=sub["data"].value(),
            axes=realise(sub["axes"]),
            metadata=realise(sub["metadata"]),
            original_metadata={},
            learning_results={},
            attributes={"_lazy": False, "ragged": False},
            tmp_parameters={},
            package="hyperspy",
            package_version="2.5.0",
            models={},
        )
        if sub["where"] == "dict":
            metadata["Nested node"] = {"_sig_s": sd}
        else:
            metadata["Nested list"] = [{"_sig_s": sd}]
    return dict(
        data=data,
        axes=realise(case["axes"]),
        metadata=metadata,
        original_metadata=realise(case["original_metadata"]),
        learning_results=realise(case["learning_results"]),
        attributes=attrs,
        models=realise(case["models"]),
        tmp_parameters={},
        package_info={"package": "hyperspy", "package_version": "2.5.0"},
    )


def plain(v):
    """dask arrays (lazy metadata) -> numpy."""
    if hasattr(v, "__dask_keys__"):
        return v.compute()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(plain(x) for x in v)
    return v


def check_result(ctx, case, got, lazy):
    exp_data = make_data(case["data"])
    data = got["data"]
    ctx.expect(hasattr(data, "__dask_keys__") == bool(lazy), "lazy-type", f"lazy={lazy} gave {type(data)}")
    ctx.expect(tuple(data.shape) == exp_data.shape, "shape", f"{data.shape} != {exp_data.shape}")
    ctx.expect(data.dtype == exp_data.dtype, "dtype", f"{data.dtype} != {exp_data.dtype}")
    if lazy:
        data = data.compute()
    ctx.expect(
        gen.arrays_equal(data, exp_data), "data", lambda: f"got {gen.short(data)} expected {gen.short(exp_data)}"
    )
    if exp_data.dtype == object:
        for i in np.ndindex(exp_data.shape):
            ctx.expect(np.asarray(data[i]).shape == exp_data[i].shape, "ragged-shape", f"{i}")
            ctx.expect(
                np.asarray(data[i]).dtype.kind == exp_data[i].dtype.kind,
                "ragged-dtype",
                f"{i} {np.asarray(data[i]).dtype} vs {exp_data[i].dtype}",
            )
    compare_trees(ctx, case, got)


def compare_trees(ctx, case, got, what=("metadata", "original_metadata", "axes", "learning_results", "models", "attributes")):
    if "axes" in what:
        d = gen.deep_diff(plain(list(got["axes"])), norm([dict(a) for a in case["axes"]]) if case["axes"] else [])
        ctx.expect(d is None, "axes", d)
    sub = case.get("nested")
    if sub and "metadata" in what:
        md = got["metadata"]
        k = "Nested node" if sub["where"] == "dict" else "Nested list"
        ctx.expect(k in md, "nested-missing", f"{list(md)}")
        got = dict(got, metadata={a: b for a, b in md.items() if a != k})
        sd = md[k] if sub["where"] == "dict" else md[k][0]
        sd = sd["_sig_s"]
        ctx.expect(gen.arrays_equal(plain(sd["data"]), sub["data"].value()), "nested-data")
        ctx.expect(gen.deep_diff(plain(list(sd["axes"])), norm([dict(a) for a in sub["axes"]])) is None, "nested-axes", lambda: gen.deep_diff(plain(list(sd["axes"])), norm([dict(a) for a in sub["axes"]])))
        ctx.expect(gen.deep_diff(plain(sd["metadata"]), sub["metadata"]) is None, "nested-metadata", lambda: gen.deep_diff(plain(sd["metadata"]), sub["metadata"]))
    for k in ("metadata", "original_metadata"):
        if k in what:
            d = gen.deep_diff(plain(got[k]), norm(case[k]))
            ctx.expect(d is None, k, d)
    if "learning_results" in what:
        d = gen.deep_diff(plain(got["attributes"].get("learning_results", {})), norm(case["learning_results"]))
        ctx.expect(d is None, "learning_results", d)
    if "models" in what:
        got_m = {k: {kk: vv for kk, vv in v.items() if kk != "_signal"} for k, v in plain(got["models"]).items()}
        d = gen.deep_diff(got_m, norm(case["models"]))
        ctx.expect(d is None, "models", d)
    if "attributes" in what:
        ga = {k: v for k, v in plain(got["attributes"]).items() if k not in ("_lazy", "ragged", "learning_results", "peak_learning_results")}
        d = gen.deep_diff(ga, norm(case["attributes"]))
        ctx.expect(d is None, "attributes", d)
        ctx.expect(bool(got["attributes"].get("ragged")) == (case["data"]["kind"] == "ragged"), "attributes.ragged")


def tree_size(v):
    if isinstance(v, dict):
        return 1 + sum(tree_size(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return 1 + sum(tree_size(x) for x in v)
    return 1


def has_long_list(v):
    if isinstance(v, dict):
        return any(has_long_list(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return len(v) > 10 or any(has_long_list(x) for x in v)
    return False


def classify(ctx, case):
    ctx.label("data:" + case["data"]["kind"], "lazy-source" if case["lazy"] else "eager-source")
    if case["models"]:
        ctx.label("models")
    if case["nested"]:
        ctx.label("nested-signal")
    if has_long_list(case["metadata"]) or has_long_list(case["original_metadata"]):
        ctx.label("container>10")
    ctx.label(*{"axis:" + a["_type"] for a in case["axes"]})
    big = case.get("arrays") or tree_size(case["metadata"]) + tree_size(case["original_metadata"]) > 6
    ctx.nontrivial(big and np.prod(data_shape(case["data"])) > 1)


@st.composite
def large(draw):
    """Signals large enough for the automatic chunking to split them."""
    nd = draw(st.integers(1, 4))
    nsig = draw(st.integers(0, nd))
    dt = draw(st.sampled_from(["u1", "u2", "f4", "f8"]))
    budget = draw(st.integers(600_000, 12_000_000)) // np.dtype(dt).itemsize
    shape = []
    for i in range(nd):
        left = nd - i - 1
        hi = max(1, int(budget)) if left == 0 else max(2, int(budget ** (1 / (left + 1)) * 3))
        s = hi if left == 0 else draw(st.integers(1, max(1, hi)))
        shape.append(max(1, s))
        budget = max(1, budget // max(1, s))
    if draw(st.booleans()):
        shape = shape[::-1]
    if draw(st.integers(0, 2)) == 0:
        # small axes among big ones of navigation
        nsig = draw(st.integers(0, 1))
        sig = [draw(st.integers(1, 300))] * nsig
        nav = draw(st.lists(st.integers(2, 6), min_size=1, max_size=2))
        total = draw(st.integers(1_200_000, 8_000_000)) // (np.dtype(dt).itemsize * int(np.prod(sig + nav)))
        a = draw(st.integers(1, max(1, int(total**0.5))))
        shape = list(draw(st.permutations(nav + [a, max(2, total // a)]))) + sig
    return dict(dtype=dt, shape=tuple(shape), nsig=nsig, seed=draw(gen.seeds), lazy=draw(st.booleans()), chunks=draw(st.sampled_from([None, None, True])), irregular=draw(st.booleans()))


def simple_signal(data, nsig, title="t", lazy=False):
    nd = data.ndim
    return dict(
        data=data,
        axes=[
            dict(_type="UniformDataAxis", name=f"a{i}", units="nm", navigate=i < nd - nsig, is_binned=False, size=s, scale=1.0, offset=0.0)
            for i, s in enumerate(data.shape)
        ],
        metadata={"General": {"title": title}},
        original_metadata={},
        learning_results={},
        attributes={"_lazy": lazy, "ragged": False},
        models={},
        tmp_parameters={},
        package_info={"package": "hyperspy", "package_version": "2.5.0"},
    )


def check_large(case, ctx, mod, ext, **kw):
    data = gen.make_array((case["dtype"], case["shape"], "arange", case["seed"]))
    d = data
    if case["lazy"]:
        import dask.array as da

        dask_chunks = "auto"
        if case.get("irregular"):
            # big and small chunks in turn, the biggest one first
            rng = np.random.default_rng(case["seed"])
            dask_chunks = []
            for n in case["shape"]:
                big = int(rng.integers(max(1, n // 10), n + 1))
                cut = [0]
                while cut[-1] < n:
                    cut.append(min(n, cut[-1] + (big if len(cut) % 2 else int(rng.integers(1, big + 1)))))
                dask_chunks.append(tuple(int(v) for v in np.diff(cut)))
            dask_chunks = tuple(dask_chunks)
        d = da.from_array(data, chunks=dask_chunks)
    p = ctx.path("large" + ext)
    if case["chunks"]:
        kw["chunks"] = case["chunks"]
    ctx.label(f"ndim{data.ndim}", f"nsig{case['nsig']}", "lazy" if case["lazy"] else "eager")
    ctx.nontrivial()
    import dask

    # tasks running at once may disturb each other: try several times
    for i in range(4 if case.get("irregular") and case["lazy"] else 1):
        with dask.config.set(scheduler="threads", num_workers=4):
            ctx.sut(mod.file_writer, p, simple_signal(d, case["nsig"], lazy=case["lazy"]), show_progressbar=False, **kw)
        r = ctx.sut(mod.file_reader, p)[0]
        ctx.expect(gen.arrays_equal(r["data"], data), "large-data", f"{r['data'].shape} {r['data'].dtype}")
    r = ctx.sut(mod.file_reader, p, lazy=True)[0]
    ctx.expect(gen.arrays_equal(r["data"].compute(), data), "large-data-lazy")
    from rsciio.utils.file import get_file_handle

    fh = get_file_handle(r["data"], warn=False)
    if fh is not None:
        fh.close()

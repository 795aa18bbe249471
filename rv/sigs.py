"""Signal dictionaries as hyperspy hands them to writers, and result checks."""

import copy

import numpy as np

from . import gen


def axis(i, size, name="x", units="nm", scale=1.0, offset=0.0, navigate=False, binned=False, index=True):
    ax = dict(
        _type="UniformDataAxis",
        name=name,
        units=units,
        scale=scale,
        offset=offset,
        size=size,
        navigate=navigate,
        is_binned=binned,
    )
    if index:
        ax["index_in_array"] = i
    return ax


def signal(data, axes, metadata=None, original_metadata=None, lazy=None, **kw):
    lazy = hasattr(data, "__dask_keys__") if lazy is None else lazy
    d = dict(
        data=data,
        axes=axes,
        metadata=metadata if metadata is not None else {"General": {"title": "t"}, "Signal": {"signal_type": ""}},
        original_metadata=original_metadata if original_metadata is not None else {},
        learning_results={},
        attributes={"_lazy": lazy, "ragged": False},
        models={},
        tmp_parameters={},
        package="hyperspy",
        package_version="2.5.0",
        package_info={"package": "hyperspy", "package_version": "2.5.0"},
    )
    d.update(kw)
    return d


def freeze(sig):
    """A deep snapshot of a signal dictionary (dask arrays kept by identity)."""
    if hasattr(sig, "__dask_keys__"):
        return ("dask", sig.name, sig.shape, str(sig.dtype))
    if isinstance(sig, dict):
        return {k: freeze(v) for k, v in sig.items()}
    if isinstance(sig, (list, tuple)):
        return type(sig)(freeze(v) for v in sig)
    return copy.deepcopy(sig)


def lazy_of(data, chunks="auto"):
    import dask.array as da

    return da.from_array(data, chunks=chunks)


def compute(x):
    return x.compute() if hasattr(x, "__dask_keys__") else np.asarray(x)


def check_data(ctx, got, expected, lazy=None, key="data", dtype=True):
    if lazy is not None:
        ctx.expect(hasattr(got, "__dask_keys__") == bool(lazy), "lazy-type", f"lazy={lazy} gave {type(got)}")
    ctx.expect(tuple(got.shape) == tuple(expected.shape), key + "-shape", f"{got.shape} != {expected.shape}")
    if dtype == "value":
        ctx.expect(np.dtype(got.dtype).newbyteorder("=") == np.dtype(expected.dtype).newbyteorder("="), key + "-dtype", f"{got.dtype} != {expected.dtype}")
    elif dtype:
        ctx.expect(got.dtype == expected.dtype, key + "-dtype", f"{got.dtype} != {expected.dtype}")
    v = compute(got)
    ctx.expect(v.shape == tuple(expected.shape), key + "-computed-shape", f"{v.shape} != {expected.shape}")
    ctx.expect(
        gen.arrays_equal(v, expected, dtype=False),
        key,
        lambda: f"got {gen.short(v, 300)} expected {gen.short(expected, 300)}",
    )


def check_structure(ctx, d):
    """The contract of every dictionary a reader returns (one signal)."""
    ctx.expect(isinstance(d, dict), "result-type", f"{type(d)}")
    ctx.expect("data" in d and "axes" in d, "result-keys", f"{sorted(d)}")
    axes = d["axes"]
    data = d["data"]
    ctx.expect(len(axes) == data.ndim, "axes-count", f"{len(axes)} axes for data of shape {data.shape}")
    idx = [a.get("index_in_array", i) for i, a in enumerate(axes)]
    idx = [i if j is None else j + data.ndim if j < 0 else j for i, j in enumerate(idx)]
    ctx.expect(sorted(idx) == list(range(data.ndim)), "axes-index", f"{idx}")
    if all("index_in_array" in a for a in axes):
        # the order of the list is the order of the dimensions
        ctx.expect(idx == list(range(data.ndim)), "axes-index", f"{idx}")
    for a, i in zip(axes, idx):
        if "axis" in a:
            ctx.expect(len(a["axis"]) == data.shape[i], "axes-size", f"axis {a.get('name')} has {len(a['axis'])} points, data {data.shape}")
            if "size" in a:
                ctx.expect(a["size"] == data.shape[i], "axes-size", f"{a} vs {data.shape}")
        else:
            ctx.expect(a.get("size") == data.shape[i], "axes-size", f"{a} vs {data.shape}")
    ctx.expect(isinstance(d.get("metadata", {}), dict), "metadata-type", f"{type(d.get('metadata'))}")
    ctx.expect(isinstance(d.get("original_metadata", {}), dict), "original_metadata-type", f"{type(d.get('original_metadata'))}")


def check_axes(ctx, got, expected, rtol=1e-12, atol=0.0, keys=("name", "units", "scale", "offset", "size", "navigate")):
    """expected: list of dicts holding only what is to be compared."""
    ctx.expect(len(got) == len(expected), "axes-number", f"{len(got)} vs {len(expected)}")
    for i, (g, e) in enumerate(zip(got, expected)):
        for k in e:
            if k not in keys:
                continue
            if k in ("scale", "offset"):
                tol = e.get("_tol", (rtol, atol))
                ctx.expect(
                    k in g and gen.close(g[k], e[k], tol[0], tol[1]),
                    f"axis-{k}",
                    f"axis {i}: {k} {g.get(k)!r} expected {e[k]!r}",
                )
            else:
                ctx.expect(k in g and g[k] == e[k], f"axis-{k}", f"axis {i}: {k} {g.get(k)!r} expected {e[k]!r}")


def get(d, path, default=None):
    for p in path.split("."):
        if not isinstance(d, dict) or p not in d:
            return default
        d = d[p]
    return d


def mapped(r):
    """The metadata as hyperspy completes it with the mapping of the reader."""
    from hyperspy.misc.utils import DictionaryTreeBrowser

    om = copy.deepcopy(r.get("original_metadata", {}))
    md = DictionaryTreeBrowser(copy.deepcopy(r.get("metadata", {})))
    for k, (path, f) in (r.get("mapping") or {}).items():
        v = get(om, k, MISSING)
        if v is MISSING:
            # parts of paths may contain dots
            first = k.split(".")[0]
            tree = DictionaryTreeBrowser({first: om[first]} if first in om else om)
            if k not in tree:
                continue
            v = tree.get_item(k)
        if f is not None:
            # as hyperspy, which gives the node of the tree
            v = f(DictionaryTreeBrowser({"v": v}).get_item("v") if isinstance(v, dict) else v)
        if v is not None:
            md.set_item(path, v)
    return md.as_dictionary()


MISSING = object()

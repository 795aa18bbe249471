"""Shared generators (plain data only) and comparison helpers."""

import math

import hypothesis.strategies as st
import numpy as np

# ---------------------------------------------------------------- arrays


def make_array(spec):
    """spec = (dtype_str, shape, mode, seed) -> deterministic array."""
    dt, shape, mode, seed = spec
    dt = np.dtype(dt)
    n = int(np.prod(shape)) if len(shape) else 1
    rng = np.random.default_rng(seed)
    if mode == "arange":
        # distinct values as far as the type allows
        if dt.kind == "b":
            a = (np.arange(n) * 7 // 3) % 2
        elif dt.kind in "ui":
            a = (np.arange(n, dtype=np.int64) + seed) % (min(np.iinfo(dt).max, 2**62) + 1)
        elif dt.kind == "c":
            a = np.arange(n) + 1j * (np.arange(n)[::-1] + 1)
        else:
            a = np.arange(n) * 0.5 + seed % 97
        a = a.astype(dt)
    elif mode == "extremes":
        if dt.kind == "b":
            pool = np.array([True, False])
        elif dt.kind in "ui":
            ii = np.iinfo(dt)
            pool = np.array([ii.min, ii.max, 0, 1, ii.max - 1, ii.max // 2], dtype=dt)
        elif dt.kind == "c":
            pool = np.array([0, 1e30, -1e30j, 1 - 1j, 3.25 + 2j], dtype=dt)
        else:
            fi = np.finfo(dt)
            pool = np.array([0, fi.max, fi.min, fi.tiny, -1.5, 1.0, 0.1], dtype=dt)
        a = pool[rng.integers(0, len(pool), n)]
    elif mode == "constant":
        a = np.full(n, seed % 100, dtype=dt)
    else:  # random
        if dt.kind == "b":
            a = rng.integers(0, 2, n).astype(dt)
        elif dt.kind in "ui":
            ii = np.iinfo(dt)
            a = rng.integers(ii.min, ii.max, n, dtype=dt.newbyteorder('='), endpoint=True).astype(dt)
        elif dt.kind == "c":
            a = (rng.normal(size=n) * 1e3 + 1j * rng.normal(size=n)).astype(dt)
        else:
            a = (rng.normal(size=n) * 10.0 ** rng.integers(-3, 4)).astype(dt)
    return np.ascontiguousarray(a.reshape(shape)).reshape(shape)


LAYOUTS = ["C", "C", "F", "strided", "reversed", "readonly"]


def relayout(a, which):
    """The same array in another memory layout; which: name or seed."""
    if not isinstance(which, str):
        which = LAYOUTS[which % len(LAYOUTS)]
    if which == "F":
        return np.asfortranarray(a)
    if which == "strided" and a.ndim:
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if which == "reversed" and a.ndim:
        return np.array(a[::-1])[::-1]
    if which == "readonly":
        a = a.copy()
        a.flags.writeable = False
    return a


@st.composite
def compositions(draw, n):
    """Sizes of chunks adding up to n."""
    cuts = draw(st.lists(st.integers(1, max(1, n - 1)), max_size=4, unique=True)) if n > 1 else []
    cuts = [0] + sorted(cuts) + [n]
    return tuple(b - a for a, b in zip(cuts, cuts[1:]))


INTS = ["u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8"]
FLOATS = ["f4", "f8"]
COMPLEX = ["c8", "c16"]

seeds = st.integers(0, 2**16)
modes = st.sampled_from(["arange", "random", "random", "extremes", "constant"])


def shapes(min_dims=1, max_dims=4, min_side=1, max_side=6):
    return st.lists(
        st.integers(min_side, max_side), min_size=min_dims, max_size=max_dims
    ).map(tuple)


def arrays(dtypes, shape=None, modes_=None, **kw):
    sh = shapes(**kw) if shape is None else (shape if hasattr(shape, "example") else st.just(shape))
    return st.tuples(st.sampled_from(dtypes), sh, modes_ or modes, seeds)


# ---------------------------------------------------------------- text / scalars

_cs = "\x00"
# keys of the attributes of a signal which have a meaning for the hspy and zspy formats
RESERVED = ("ragged", "_lazy", "learning_results", "peak_learning_results")


def text(max_size=12, min_size=0, blacklist="", ascii_only=False):
    if ascii_only:
        al = st.characters(min_codepoint=32, max_codepoint=126, exclude_characters=blacklist)
    else:
        al = st.one_of(
            st.characters(min_codepoint=32, max_codepoint=126, exclude_characters=blacklist),
            st.sampled_from([c for c in "µÅ°é²αΔ电子𝔘ü" if c not in blacklist]),
        )
    # "_None_" and the like are the marks the hierarchical formats reserve
    return st.text(al, min_size=min_size, max_size=max_size).filter(lambda s: not (len(s) > 2 and s[0] == s[-1] == "_") and s not in RESERVED)


idents = st.from_regex(r"[A-Za-z][A-Za-z0-9_ ]{0,9}", fullmatch=True).map(str.strip)


def floats(lo=None, hi=None, width=64):
    return st.floats(
        min_value=lo, max_value=hi, allow_nan=False, allow_infinity=False, width=width, allow_subnormal=False
    )


# "ordinary" calibrations: scale strictly positive and not denormal
scales = st.one_of(
    st.sampled_from([1.0, 0.1, 0.02, 2.5, 10.0, 1e-3, 1e3]),
    st.floats(min_value=1e-6, max_value=1e6, allow_nan=False),
)
offsets = st.one_of(
    st.sampled_from([0.0, 1.0, -5.5, 100.25]),
    st.floats(min_value=-1e6, max_value=1e6, allow_nan=False),
)

# ---------------------------------------------------------------- comparison


def same_scalar(a, b):
    """Equality of scalars up to numpy/python type of the same kind."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (str, np.str_)) or isinstance(b, (str, np.str_)):
        return isinstance(a, (str, np.str_)) and isinstance(b, (str, np.str_)) and str(a) == str(b)
    if isinstance(a, (bytes, np.bytes_, np.void)) or isinstance(b, (bytes, np.bytes_, np.void)):
        return bytes(a) == bytes(b) if isinstance(a, (bytes, np.bytes_, np.void)) and isinstance(b, (bytes, np.bytes_, np.void)) else False
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    try:
        if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)) and math.isnan(a) and math.isnan(b):
            return True
        return bool(a == b)
    except Exception:
        return False


def arrays_equal(a, b, dtype=True):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if dtype and a.dtype != b.dtype:
        return False
    if a.dtype == object or b.dtype == object:
        return all(deep_diff(x, y) is None for x, y in zip(a.ravel(), b.ravel()))
    if a.dtype.kind in "fc" and b.dtype.kind in "fc":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def is_seq(x):
    return isinstance(x, (list, tuple))


def deep_diff(a, b, path="", dtype=True):
    """None if equal, else a short description. Dicts by key, lists/tuples by
    type and order, arrays by dtype/shape/values, scalars by value."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return f"{path}: {type(a).__name__} {short(a)} vs {type(b).__name__} {short(b)}"
        ka, kb = set(a), set(b)
        if ka != kb:
            return f"{path}: keys only left {sorted(map(str, ka - kb))[:5]}, only right {sorted(map(str, kb - ka))[:5]}"
        for k in a:
            d = deep_diff(a[k], b[k], f"{path}.{k}", dtype)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) and a.ndim or isinstance(b, np.ndarray) and b.ndim:
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {type(a).__name__} {short(a)} vs {type(b).__name__} {short(b)}"
        if not arrays_equal(a, b, dtype):
            return f"{path}: arrays differ {a.dtype}{a.shape} {short(a)} vs {b.dtype}{b.shape} {short(b)}"
        return None
    if is_seq(a) or is_seq(b):
        if type(a) is not type(b):
            return f"{path}: {type(a).__name__} {short(a)} vs {type(b).__name__} {short(b)}"
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}: {short(a)} vs {short(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = deep_diff(x, y, f"{path}[{i}]", dtype)
            if d:
                return d
        return None
    if not same_scalar(a, b):
        return f"{path}: {type(a).__name__} {short(a)} vs {type(b).__name__} {short(b)}"
    return None


def short(x, n=120):
    r = repr(x).replace("\n", " ")
    return r if len(r) <= n else r[:n] + "..."


def close(a, b, rtol=1e-9, atol=0.0):
    try:
        return bool(np.isclose(float(a), float(b), rtol=rtol, atol=atol))
    except Exception:
        return False

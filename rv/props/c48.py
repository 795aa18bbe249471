"""C48: path and file utilities."""

import builtins
import io
import os
import pathlib
from unittest import mock

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Reject, Sub

part = st.text(st.characters(min_codepoint=32, max_codepoint=126, exclude_characters="/\x00") | st.sampled_from("üé°电"), min_size=1, max_size=8)
stem = part.filter(lambda s: s.strip(". ") == s and s)
ext = st.sampled_from(["", ".hspy", ".tif", ".zspy", ".tar.gz", ".x"])


@st.composite
def cases(draw):
    return dict(
        folder=draw(st.lists(stem, max_size=2)),
        stem=draw(stem),
        ext=draw(ext),
        append=draw(st.sampled_from(["", "-1", "_a", ".b", " x"]) | stem),
        present=sorted(draw(st.sets(st.integers(0, 9), max_size=8))),
        run=1100 if draw(st.integers(0, 150)) == 77 else 0,
        start=draw(st.integers(0, 3)),
        kind=draw(st.sampled_from([str, pathlib.Path])),
        answers=draw(st.lists(st.sampled_from(["y", "n", "Y", "N", "", "yes", "no", "maybe", "yn", " "]), max_size=5)),
        tty=draw(st.booleans()),
    )


def check(c, ctx):
    from rsciio.utils import path as P

    base = os.path.join(ctx.dir, *c["folder"])
    kind = c["kind"]
    # directories, once or again
    for _ in range(2):
        ctx.sut(P.ensure_directory, kind(base))
        ctx.expect(os.path.isdir(base), "directory", base)
    name = c["stem"] + c["ext"]
    st_, sx = os.path.splitext(name)
    if pathlib.PurePath(name).suffix != sx:
        raise Reject("name with dots")
    full = os.path.join(base, name)
    ctx.label("run" if c["run"] else f"present {len(c['present'])}", c["ext"])
    ctx.nontrivial(bool(c["present"] or c["folder"]))

    got = ctx.sut(P.append2pathname, kind(full), c["append"])
    ctx.expect(isinstance(got, pathlib.Path) and str(got) == os.path.join(base, st_ + c["append"] + sx), "append", f"{got} of {full} and {c['append']!r}")

    # 0 stands for the name itself
    present = range(c["run"]) if c["run"] else c["present"]
    for i in present:
        with open(full if i == 0 else os.path.join(base, f"{st_}-{i}{sx}"), "w") as f:
            f.write(str(i))
    before = sorted(os.listdir(base))
    got = ctx.sut(P.incremental_filename, kind(full), c["start"])
    if 0 in present:
        n = next(i for i in range(c["start"], 5000) if not os.path.exists(os.path.join(base, f"{st_}-{i}{sx}")))
        want = os.path.join(base, f"{st_}-{n}{sx}")
    else:
        want = full
    ctx.expect(isinstance(got, pathlib.Path) and str(got) == want, "incremental", f"{got} expected {want}, {before[:12]} present")
    ctx.expect(not os.path.exists(got), "incremental-exists", f"{got}")
    ctx.expect(sorted(os.listdir(base)) == before, "folder-changed", f"{before[:10]} -> {sorted(os.listdir(base))[:10]}")

    # a file as the path: its folder is there
    if 0 in present:
        ctx.sut(P.ensure_directory, kind(full))
        ctx.expect(os.path.isfile(full), "directory", "file replaced")

    # overwriting is asked for, until it is answered by yes or no
    answers = c["answers"] + [("y", "n")[len(c["answers"]) % 2]]
    asked = []

    def ask(text=""):
        asked.append(text)
        if not c["tty"]:
            raise EOFError
        return answers[len(asked) - 1]

    target = full if c["ext"] != ".zspy" or c["start"] % 2 else os.path.join(base, "store.zspy")
    if target != full:
        os.mkdir(target)
    with mock.patch.object(builtins, "input", ask), mock.patch.object(builtins, "print", lambda *a, **k: None):
        got = ctx.sut(P.overwrite, kind(target))
    if not os.path.exists(target):
        ctx.expect(got is True and not asked, "overwrite-new", f"{got}, asked {len(asked)}")
    elif not c["tty"]:
        ctx.expect(got is False, "overwrite-no-terminal", f"{got}")
    else:
        k = next(i for i, a in enumerate(answers) if a.lower() in ("y", "n"))
        ctx.expect(got is (answers[k].lower() == "y"), "overwrite", f"{got} after {answers[: k + 1]}")
        ctx.expect(len(asked) == k + 1 and all(str(target) in t for t in asked), "overwrite-asked", f"{asked}")


# ------------------------------------------------------------ handles


@st.composite
def handles(draw):
    return dict(
        fmt=draw(st.sampled_from(["hspy", "nexus", "tiff", "numpy", "none"])),
        shape=(draw(st.integers(1, 4)), draw(st.integers(2, 5)), draw(st.integers(2, 5))),
        ops=draw(st.lists(st.sampled_from(["slice", "add", "sum", "transpose", "rechunk", "astype"]), max_size=3)),
        seed=draw(gen.seeds),
        warn=draw(st.booleans()),
    )


def check_handle(c, ctx):
    import importlib

    from rsciio.utils.file import get_file_handle

    a = gen.make_array(("<u2", tuple(c["shape"]), "random", c["seed"]))
    ctx.label(c["fmt"], *c["ops"])
    ctx.nontrivial(c["fmt"] != "none")
    if c["fmt"] == "none":
        d = sigs.lazy_of(a + 1) + 0
        p = None
    else:
        ext = {"hspy": "hspy", "nexus": "nxs", "tiff": "tif", "numpy": "npy"}[c["fmt"]]
        m = importlib.import_module("rsciio." + c["fmt"])
        p = ctx.path("a." + ext)
        axes = [sigs.axis(i, n, name="zyx"[i], navigate=i == 0) for i, n in enumerate(a.shape)]
        ctx.sut(m.file_writer, p, sigs.signal(a, axes))
        d = ctx.sut(m.file_reader, p, lazy=True)[0]["data"]
    if c["fmt"] == "tiff":
        # the handle is only accessible from the data as it was loaded
        ops = []
    else:
        ops = c["ops"]
    e = a.reshape(d.shape) if c["fmt"] != "none" else a + 1
    x = d
    for op in ops:
        x, e = {
            "slice": lambda v: v[..., :1] if v.ndim else v,
            "add": lambda v: v + 1,
            "sum": lambda v: v.sum(axis=0) if v.ndim > 1 else v,
            "transpose": lambda v: v.T,
            "rechunk": lambda v: v.rechunk(1) if hasattr(v, "rechunk") else v,
            "astype": lambda v: v.astype("f8"),
        }[op](x), None
    h = ctx.sut(get_file_handle, x, warn=c["warn"])
    if c["fmt"] in ("numpy", "none"):
        ctx.expect(h is None, "handle", f"{h}")
        return
    ctx.expect(h is not None, "no-handle", c["fmt"])
    name = h.filename if hasattr(h, "filename") else h.name
    ctx.expect(os.path.samefile(name, p), "handle-file", f"{name}")
    ctx.expect(np.array_equal(d.compute(), a.reshape(d.shape)), "data", "data changed")
    h.close()
    if c["fmt"] != "tiff":
        try:
            d.compute()
        except Exception:
            pass
        else:
            ctx.expect(False, "still-open", "the data is readable after the handle was closed")


# ------------------------------------------------------------ npy headers


@st.composite
def headers(draw):
    return dict(
        dtype=draw(st.sampled_from(["<f4", ">f8", "|u1", "<i2", ">u4", "|b1", "<c16", "|S3", "<U2", "<M8[s]"])),
        shape=draw(gen.shapes(0, 4, 0, 5)),
        version=draw(st.sampled_from([(1, 0), (2, 0), (3, 0)])),
        fortran=draw(st.booleans()),
        before=draw(st.sampled_from([0, 0, 3, 64])),
    )


def check_header(c, ctx):
    from rsciio.utils.file import inspect_npy_bytes

    a = np.zeros(c["shape"], c["dtype"])
    if c["fortran"]:
        a = np.asfortranarray(a)
    b = io.BytesIO()
    b.write(b"x" * c["before"])
    np.lib.format.write_array(b, a, version=c["version"])
    size = len(b.getvalue())
    b.seek(c["before"])
    offset, shape, dtype = ctx.sut(inspect_npy_bytes, b)
    ctx.label(f"v{c['version'][0]}", c["dtype"])
    ctx.nontrivial(bool(a.ndim))
    want = size - c["before"] - a.nbytes
    ctx.expect(offset == want, "offset", f"{offset} expected {want}")
    ctx.expect(tuple(shape) == a.shape and np.dtype(dtype) == a.dtype, "shape-dtype", f"{shape} {dtype}")
    ctx.expect(b.tell() == c["before"] + want, "position", f"{b.tell()}")


PROP = Prop(
    "C48",
    "other files are there or the folder is to be created; the format has file handles; the array has dimensions",
    [
        Sub("paths", cases, check, quick=1200, shards=3),
        Sub("handles", handles, check_handle, quick=240, shards=3),
        Sub("headers", headers, check_header, quick=600, shards=2),
    ],
)

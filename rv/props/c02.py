"""C02: zspy stores give back exactly the signal that was written."""

import os

import hypothesis.strategies as st

from .. import hier
from ..core import Prop, Sub


@st.composite
def cases(draw, simple=False):
    c = draw(hier.arrays() if simple else hier.signal(bytes_ok=False))
    c["store"] = draw(st.sampled_from(["path", "path", "local", "zip", "dict"]))
    c["compressor"] = draw(st.sampled_from(["default", "default", "zlib", "blosc-lz4"]))
    shape = hier.data_shape(c["data"])
    c["wchunks"] = draw(
        st.one_of(st.none(), st.none(), st.just(True), st.tuples(*[st.integers(1, s) for s in shape]))
    )
    return c


def check(case, ctx):
    import numcodecs
    import zarr

    from rsciio.zspy import file_reader, file_writer

    hier.classify(ctx, case)
    ctx.label("store:" + case["store"])
    target = path = ctx.path("s.zspy")
    kw = dict(show_progressbar=False)
    if case["store"] in ("local", "zip"):
        kw["store_type"] = case["store"]
    elif case["store"] == "dict":
        target = path = zarr.storage.MemoryStore()
    if case["wchunks"] is not None and not (case["data"]["kind"] == "ragged" and case["wchunks"] is True):
        kw["chunks"] = case["wchunks"]
        ctx.label("chunks-arg")
    if case["compressor"] == "zlib":
        kw["compressor"] = numcodecs.Zlib(level=1)
    elif case["compressor"] == "blosc-lz4":
        kw["compressor"] = numcodecs.Blosc(cname="lz4", clevel=3)
    ctx.sut(file_writer, target, hier.build(case), **kw)
    if case["store"] == "zip":
        ctx.expect(os.path.isfile(path), "zip-file")
    elif case["store"] != "dict":
        ctx.expect(os.path.isdir(path), "dir-store")
    for lazy in (False, True):
        res = ctx.sut(file_reader, path, lazy=lazy)
        ctx.expect(len(res) == 1, "count", f"{len(res)} signals")
        hier.check_result(ctx, case, res[0], lazy)
        ctx.expect(res[0]["package"] == "hyperspy" and res[0]["package_version"] == "2.5.0", "package")


def check_large(case, ctx):
    import rsciio.zspy as mod

    hier.check_large(case, ctx, mod, ".zspy")


PROP = Prop(
    "C02",
    "As C01 for the zarr format, through directory, zip and in-memory stores, random compressors and chunks. "
    "Non-trivial: more than one data element and a metadata tree of more than six nodes , for signals with little metadata more than one data element (all large signals count).",
    [
        Sub("roundtrip", cases, check, quick=480, shards=7),
        Sub("arrays", lambda: cases(simple=True), check, quick=800, shards=4),
        Sub("chunked", hier.chunked, check_large, quick=120, shards=2),
        Sub("large", hier.large, check_large, quick=24, shards=1),
    ],
)

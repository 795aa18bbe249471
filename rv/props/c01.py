"""C01: hspy files give back exactly the signal that was written."""

import hypothesis.strategies as st

from .. import hier
from ..core import Prop, Sub


@st.composite
def cases(draw, simple=False):
    c = draw(hier.arrays() if simple else hier.signal(bytes_ok=True))
    if c["data"]["kind"] == "ragged" and (len(c["data"]["shape"]) == 1 or c["data"]["dtype"] == "str"):
        # documented: 1-D ragged dask arrays are refused; K-C01-1: string ragged dask arrays
        c["lazy"] = False
    c["compression"] = draw(st.sampled_from(["gzip", None, "lzf"]))
    shape = hier.data_shape(c["data"])
    c["wchunks"] = draw(
        st.one_of(st.none(), st.none(), st.just(True), st.tuples(*[st.integers(1, s) for s in shape]))
    )
    return c


def check(case, ctx):
    from rsciio.hspy import file_reader, file_writer

    hier.classify(ctx, case)
    path = ctx.path("s.hspy")
    kw = {}
    if case["wchunks"] is not None:
        kw["chunks"] = case["wchunks"]
        ctx.label("chunks-arg")
    if case["lazy"]:
        kw["show_progressbar"] = False
    ctx.sut(file_writer, path, hier.build(case), compression=case["compression"], **kw)
    for lazy in (False, True):
        res = ctx.sut(file_reader, path, lazy=lazy)
        ctx.expect(len(res) == 1, "count", f"{len(res)} signals")
        hier.check_result(ctx, case, res[0], lazy)
        ctx.expect(res[0]["package"] == "hyperspy" and res[0]["package_version"] == "2.5.0", "package")
        if lazy:
            from rsciio.utils.file import get_file_handle

            fh = get_file_handle(res[0]["data"], warn=False)
            if fh is not None:
                fh.close()



def check_large(case, ctx):
    import rsciio.hspy as mod

    hier.check_large(case, ctx, mod, ".hspy", compression=None)


def probe_lazy_str(ctx):
    import dask.array as da
    import numpy as np

    from rsciio.hspy import file_writer

    a = np.empty((2, 2), dtype=object)
    for i in np.ndindex(2, 2):
        a[i] = np.array(["a", "bc"])
    s = hier.simple_signal(da.from_array(a, chunks=(1, 1)), 0, lazy=True)
    s["attributes"]["ragged"] = True
    ctx.sut(file_writer, ctx.path("p.hspy"), s, show_progressbar=False)


def probe_unicode_array(ctx):
    import numpy as np

    from rsciio.hspy import file_reader, file_writer

    s = hier.simple_signal(np.arange(3), 1)
    s["metadata"]["x"] = np.array(["\xb5m", "a"])
    ctx.sut(file_writer, ctx.path("p.hspy"), s)
    ctx.expect(list(ctx.sut(file_reader, ctx.path("p.hspy"))[0]["metadata"]["x"]) == ["\xb5m", "a"], "value")


PROP = Prop(
    "C01",
    "Random signal dictionaries (all dtypes, rgb, ragged; 1-4 dims; eager/dask data; all axis kinds; nested "
    "metadata of every supported type, nested signals, models) written to .hspy with random chunks/compression and "
    "read back eagerly and lazily; every field compared with the documented normalisation of the input; plus signals "
    "of 0.6-12 MB exercising the automatic chunking. Non-trivial: more than one data "
    "element and a metadata tree of more than six nodes , for signals with little metadata more than one data element (all large signals count).",
    [
        Sub("roundtrip", cases, check, quick=560, shards=7),
        Sub("arrays", lambda: cases(simple=True), check, quick=1200, shards=4),
        Sub("chunked", hier.chunked, check_large, quick=80, shards=1),
        Sub("large", hier.large, check_large, quick=24, shards=1),
    ],
    probes={"K-C01-1": probe_lazy_str, "K-C01-2": probe_unicode_array},
    assumptions=["texts of the form _word_ are not generated: the format reserves _None_ for None"],
)

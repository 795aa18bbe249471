"""C03: histories of writes, updates and lazy rewrites of one hspy/zspy file."""

import os

import hypothesis.strategies as st
import numpy as np

from .. import gen, hier
from ..core import Prop, Sub


@st.composite
def content(draw, shape, nsig, title):
    """Everything of a signal but its data."""
    md = draw(hier.tree(None, 6, ragged=False))
    md["General"] = {"title": title}
    models = {}
    if draw(st.integers(0, 2)) == 0:
        models = {draw(st.sampled_from(["m1", "m2"])): {"components": draw(st.lists(st.dictionaries(hier.key, hier.scalar, max_size=2), max_size=3)), "n": 1}}
    return dict(
        axes=draw(hier.axes_for(shape, nsig)),
        metadata=md,
        original_metadata=draw(hier.tree(None, 4, ragged=False)),
        learning_results=draw(st.one_of(st.just({}), hier.tree(None, 3, ragged=False))),
        attributes=draw(st.one_of(st.just({}), hier.tree(None, 3, ragged=False))),
        models=models,
        nested=None,
    )


TRANSFORMS = ["same", "same", "flip", "twice", "crop", "swap", "float"]


def apply(a, how):
    if how == "flip":
        return a[tuple(slice(None, None, -1) for _ in range(a.ndim))]
    if how == "twice":
        return a + a
    if how == "crop":
        return a[tuple(slice(0, max(1, s - 1)) for s in a.shape)]
    if how == "swap":
        return a.swapaxes(0, -1)
    if how == "float":
        return a.astype("f4")
    return a


@st.composite
def histories(draw):
    fmt = draw(st.sampled_from(["hspy", "hspy", "zspy", "zspy", "zip"]))

    def fresh():
        d = draw(hier.data_spec(ragged=True, max_side=5))
        shape = hier.data_shape(d)
        title = draw(hier.titles)
        nsig = 0 if d["kind"] == "ragged" else draw(st.integers(0, len(shape)))
        lazy = d["kind"] != "ragged" and draw(st.booleans())
        return dict(op="write", data=d, lazy=lazy, chunks=tuple(draw(st.integers(1, s)) for s in shape), hold=draw(st.sampled_from([None, None, "r", "a"])), **draw(content(shape, nsig, title)))

    first = fresh()
    ops = [first]
    d, shape, title = first["data"], hier.data_shape(first["data"]), first["metadata"]["General"]["title"]
    for _ in range(draw(st.sampled_from([2, 2, 3, 3, 1, 4]))):
        kinds = ["write", "eager"]
        if fmt != "zip":
            kinds += ["update"] * 4 + (["lazyupdate"] * 2 if d["kind"] != "ragged" else [])
        if d["kind"] != "ragged":
            kinds += ["lazy"] * 3
        op = draw(st.sampled_from(kinds))
        if op == "write":
            o = fresh()
            d, shape, title = o["data"], hier.data_shape(o["data"]), o["metadata"]["General"]["title"]
        elif op in ("update", "lazyupdate"):
            o = dict(op=op, keep=draw(st.booleans()), **draw(content(shape, draw(st.integers(0, len(shape))), title)))
        else:
            how = "same"
            if op == "lazy" and d["kind"] == "plain":
                how = draw(st.sampled_from(TRANSFORMS))
            shape = apply(np.empty(shape), how).shape
            # keep: metadata and the rest as loaded; otherwise new
            o = dict(op=op, how=how, keep=draw(st.booleans()), rechunk=draw(st.booleans()), **draw(content(shape, draw(st.integers(0, len(shape))), title)))
        ops.append(o)
    return dict(fmt=fmt, ops=ops)


def from_loaded(res):
    """The signal dictionary hyperspy makes of a loaded one."""
    at = dict(res["attributes"])
    lr = at.pop("learning_results", {})
    models = {k: {kk: vv for kk, vv in v.items() if kk != "_signal"} for k, v in res["models"].items()}
    return dict(data=res["data"], axes=[dict(a) for a in res["axes"]], metadata=res["metadata"], original_metadata=res["original_metadata"], learning_results=lr, attributes=at, models=models, tmp_parameters={}, package_info={"package": "hyperspy", "package_version": "2.5.0"})


KEYS = ("metadata", "original_metadata", "learning_results", "attributes", "models")


def check(c, ctx):
    import rsciio.hspy as hspy
    import rsciio.zspy as zspy

    fmt = c["fmt"]
    mod = hspy if fmt == "hspy" else zspy
    path = ctx.path("s." + ("hspy" if fmt == "hspy" else "zspy"))
    wkw = dict(show_progressbar=False)
    if fmt == "zip":
        wkw["store_type"] = "zip"
    kinds = [o["op"] for o in c["ops"]]
    ctx.label(fmt, *kinds, "ops%d" % len(kinds))
    ctx.nontrivial(len(kinds) > 2)
    held = []
    state = None
    folder, name = os.path.split(path)
    here = dict(original_folder=folder, original_filename=os.path.splitext(name)[0], original_extension=os.path.splitext(name)[1][1:])
    try:
        for n, o in enumerate(c["ops"]):
            op = o["op"]
            if op == "write":
                if state is not None and o["hold"] and fmt != "zip":
                    held.append(ctx.sut(mod.file_reader, path, lazy=True, mode=o["hold"] if fmt == "hspy" else "r"))
                state = {k: o[k] for k in ("data", "axes", "nested", *KEYS)}
                ctx.sut(mod.file_writer, path, hier.build(o), **wkw)
            else:
                lazy = op in ("lazy", "lazyupdate")
                kw = {"mode": "a"} if fmt == "hspy" and lazy else {}
                if op == "update":
                    sig = hier.build(dict(o, data=state["data"], lazy=False))
                    if o["keep"]:
                        # the data in memory is not that of the file
                        sig["data"] = np.zeros((1,) * sig["data"].ndim)
                    state = dict(state, **{k: o[k] for k in ("axes", *KEYS)})
                    ctx.sut(mod.file_writer, path, sig, write_dataset=False, **wkw)
                else:
                    r = ctx.sut(mod.file_reader, path, lazy=lazy, **kw)[0]
                    sig = from_loaded(r)
                    if lazy:
                        sig["tmp_parameters"] = dict(here)
                    new = hier.build(dict(o, data=dict(kind="plain", array=np.zeros(1)), lazy=False))
                    old = state
                    state = dict(state)
                    if not o["keep"]:
                        state.update({k: o[k] for k in KEYS})
                        sig.update({k: new[k] for k in KEYS})
                        sig["attributes"]["_lazy"] = lazy
                        sig["attributes"]["ragged"] = state["data"]["kind"] == "ragged"
                    if op != "lazyupdate" and o["how"] != "same":
                        sig["data"] = apply(sig["data"], o["how"])
                        if o["rechunk"] and lazy:
                            sig["data"] = sig["data"].rechunk(2)
                        state["data"] = dict(kind="plain", array=apply(hier.make_data(old["data"]), o["how"]))
                    if not (o["keep"] and op != "lazyupdate" and o["how"] == "same"):
                        sig["axes"] = new["axes"]
                        state["axes"] = o["axes"]
                    ctx.sut(mod.file_writer, path, sig, **(dict(wkw, write_dataset=False) if op == "lazyupdate" else wkw))
            res = ctx.sut(mod.file_reader, path)
            ctx.expect(len(res) == 1, "count", f"{len(res)} signals after {kinds[: n + 1]}")
            hier.check_result(ctx, state, res[0], False)
        if fmt != "hspy":
            ctx.expect(sorted(os.listdir(folder)) == [name], "left-over", f"{os.listdir(folder)}")
        res = ctx.sut(mod.file_reader, path, lazy=True)
        hier.check_result(ctx, state, res[0], True)
        held.append(res)
    finally:
        from rsciio.utils.file import get_file_handle

        for r in held:
            try:
                fh = get_file_handle(r[0]["data"], warn=False)
                if fh is not None:
                    fh.close()
            except Exception:
                pass


PROP = Prop(
    "C03",
    "Histories of 2-6 operations on one file: full writes, metadata/axes-only updates, saving a lazily loaded (and "
    "transformed) signal onto its own file, eager reload and save; after each operation the file is loaded and compared "
    "with a model of its content. Non-trivial: at least three operations.",
    [Sub("history", histories, check, quick=280, shards=7)],
)

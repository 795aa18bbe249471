"""C41: reading doesn't depend on how, where and when a file is read."""

import copy
import gc
import glob
import importlib
import os
import pathlib
import shutil
import warnings
import zipfile

import hypothesis.strategies as st
import numpy as np

from .. import boot, gen, sigs
from ..core import Prop, Reject, Sub

DATA = os.path.join(boot.REPO, "rsciio", "tests", "data")
# Folder of the test files = name of the plugin; formats documented as lazy
LAZY = "blockfile bruker digitalmicrograph emd hspy image jeol mrc nexus pantarhei quantumdetector ripple semper tia tiff tvips zspy".split()
EXT = {
    "arina": (".h5",), "blockfile": (".blo",), "bruker": (".bcf", ".spx"), "delmic": (".h5",), "dens": (".dens",), "digitalmicrograph": (".dm3", ".dm4"),
    "digitalsurf": (".sur", ".pro"), "emd": (".emd", ".h5"), "hamamatsu": (".img",), "hspy": (".hspy", ".hdf5"), "image": (".jpg",), "impulse": (".csv",),
    "jeol": (".asw", ".img", ".map", ".pts", ".eds"), "jobinyvon": (".xml",), "mrc": (".mrc",), "msa": (".msa",), "nexus": (".nxs",), "pantarhei": (".prz",),
    "phenom": (".elid",), "protochips": (".csv",), "quadstar": (".sac", ".sbc"), "quantumdetector": (".mib",), "renishaw": (".wdf",), "ripple": (".rpl",),
    "semper": (".unf",), "tia": (".ser", ".emi"), "tiff": (".tif", ".tiff"), "topspin": (".app5",), "trivista": (".tvf",), "tvips": (".tvips",), "zspy": (".zspy",),
}
# formats whose files refer to other files of the folder
FOLDER = {"jeol", "mrc", "tia", "ripple", "tvips", "quantumdetector", "protochips", "impulse", "arina", "empad"}
LIMIT = 6_000_000


def listing():
    """(plugin, archive or None, path below the plugin's folder)."""
    out = []
    for plugin, exts in sorted(EXT.items()):
        base = os.path.join(DATA, plugin)
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for d in list(dirs):
                if d.endswith(".zspy"):
                    out.append((plugin, None, os.path.relpath(os.path.join(root, d), base)))
                    dirs.remove(d)
            for f in sorted(files):
                full = os.path.join(root, f)
                if f.endswith(".zip") and plugin != "zspy":
                    try:
                        with zipfile.ZipFile(full) as z:
                            if sum(i.file_size for i in z.infolist()) < 60_000_000:
                                out += [(plugin, os.path.relpath(full, base), i.filename) for i in z.infolist() if i.filename.lower().endswith(exts) and i.file_size < LIMIT]
                    except zipfile.BadZipFile:
                        pass
                elif f.lower().endswith(exts) and os.path.getsize(full) < LIMIT:
                    out.append((plugin, None, os.path.relpath(full, base)))
    return out


# invalid on purpose, incomplete in the repository, or not the first file
SKIP = """test_00.h5 Nope.bcf file2.dens file3.dens NoMetadata_Synchronized data.csv|changed_file_name.csv|random_csv_file.csv|invalid_protochips_file.csv
181019-BN.ASW|dummy2.ASW""".replace("\n", "|").replace("h5 ", "h5|").replace("bcf ", "bcf|").replace("dens ", "dens|").split("|")
FILES = [f for f in listing() if os.path.basename(f[2]) not in SKIP and not f[2].endswith("RAW.mib") and "_split_00" not in f[2].replace("_split_000", "")]
BY_PLUGIN = {}
for _f in FILES:
    BY_PLUGIN.setdefault(_f[0], []).append(_f)


def place(f, where):
    """A copy of the file, and of the files it may refer to, in `where`."""
    plugin, archive, name = f
    base = os.path.join(DATA, plugin)
    os.makedirs(where, exist_ok=True)
    if archive:
        with zipfile.ZipFile(os.path.join(base, archive)) as z:
            if plugin in FOLDER:
                z.extractall(where)
            else:
                z.extract(name, where)
        return os.path.join(where, name)
    src = os.path.join(base, name)
    dst = os.path.join(where, name)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if plugin == "jeol":
        shutil.copytree(base, where, dirs_exist_ok=True, ignore=shutil.ignore_patterns("*.zip", "*.npy"))
    elif plugin in FOLDER:
        for g in os.listdir(os.path.dirname(src)):
            p = os.path.join(os.path.dirname(src), g)
            if os.path.isfile(p) and not g.endswith((".zip", ".npy")):
                shutil.copy(p, os.path.join(os.path.dirname(dst), g))
    elif os.path.isdir(src):
        shutil.copytree(src, dst)
    else:
        shutil.copy(src, dst)
    return dst


def snapshot(where):
    out = {}
    for root, _, files in os.walk(where):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as g:
                out[os.path.relpath(p, where)] = hash(g.read())
    return out


def plain(v):
    if hasattr(v, "__dask_keys__"):
        v = v.compute()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items() if k not in ("FileIO", "_lazy")}
    if isinstance(v, (list, tuple)):
        return type(v)(plain(x) for x in v) if type(v) in (list, tuple) else [plain(x) for x in v]
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return plain(v[()])
        if v.dtype.kind == "V":
            return v.tobytes()
        return np.array(v)
    if isinstance(v, os.PathLike) or isinstance(v, str) and os.sep in v and (os.path.exists(v) or os.path.exists(os.path.dirname(v))):
        # the path of the file itself is the one thing that may differ
        return os.path.basename(v)
    if v is None or isinstance(v, (str, bytes, bool, int, float, complex)):
        return v
    return repr(v)


def freeze(signals):
    return [{k: plain(v) for k, v in d.items() if k not in ("post_process", "mapping")} | {"mapping": sorted(map(str, d.get("mapping") or {}))} for d in signals]


def compare(ctx, got, ref, key, dtype):
    ctx.expect(len(got) == len(ref), f"{key}-count", f"{len(got)} signals, {len(ref)} expected")
    for i, (a, b) in enumerate(zip(got, ref)):
        ctx.expect(sorted(a) == sorted(b), f"{key}-keys", f"{i}: {sorted(a)} {sorted(b)}")
        for k in b:
            d = gen.deep_diff(a[k], b[k], dtype=dtype or k != "data")
            ctx.expect(d is None, f"{key}-{k}", f"signal {i}, {k}{d}")


def descriptors():
    out = set()
    for f in os.listdir("/proc/self/fd"):
        try:
            out.add((f, os.readlink("/proc/self/fd/" + f)))
        except OSError:
            pass
    return out


DIRS = ["d", "a b", "ü é", "[x] (1)", "a.b", "movie", "50%"]


@st.composite
def step(draw, plugins):
    return dict(
        file=draw(st.sampled_from(BY_PLUGIN[draw(plugins)])),
        dir=draw(st.sampled_from(DIRS)),
        path=draw(st.sampled_from(["str", "path", "relative", "relative path"])),
        lazy=draw(st.booleans()),
        twice=draw(st.booleans()),
    )


@st.composite
def cases(draw):
    # several files of few formats: reading one must not change the others
    some = st.sampled_from(draw(st.lists(st.sampled_from(sorted(BY_PLUGIN)), min_size=1, max_size=3)))
    return draw(st.lists(step(some), min_size=1, max_size=4))


def reader(plugin):
    return importlib.import_module("rsciio." + plugin).file_reader


_ref = {}


def read(plugin, path, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return reader(plugin)(path, **kw)


def reference(f, ctx):
    """What the first plain reading gives; None if the file isn't readable."""
    if f not in _ref:
        p = place(f, ctx.path("reference"))
        try:
            signals = read(f[0], p)
        except Exception as e:
            if os.environ.get("RV_DEBUG"): print(f, repr(e)[:300])
            _ref[f] = None, f"{type(e).__name__}: {e}"
            ctx.label("unreadable")
        else:
            for s in signals:
                sigs.check_structure(ctx, s)
            _ref[f] = freeze(signals), None
            del signals
        shutil.rmtree(ctx.path("reference"))
    return _ref[f][0]


def check(c, ctx):
    held = []
    n = 0
    for i, s in enumerate(c):
        f = tuple(s["file"])
        ref = reference(f, ctx)
        if ref is None:
            continue
        n += 1
        where = os.path.join(ctx.path(f"{i}"), s["dir"])
        p = place(f, where)
        before, fds = snapshot(where), descriptors()
        cwd = os.getcwd()
        arg = p
        if "relative" in s["path"]:
            os.chdir(where)
            arg = os.path.relpath(p, where)
        if s["path"].endswith("path"):
            arg = pathlib.Path(arg)
        lazy = s["lazy"] and f[0] in LAZY
        kw = dict(lazy=lazy) if f[0] in LAZY or i % 2 else {}
        ctx.label(f[0], s["path"], "lazy" if lazy else "eager")
        try:
            for _ in range(1 + s["twice"]):
                try:
                    signals = read(f[0], arg, **kw)
                except Exception as e:
                    if lazy and "azy" in str(e):
                        ctx.label("not lazy")
                        break
                    raise
                for r in signals:
                    sigs.check_structure(ctx, r)
                got = freeze(signals)
                # K-C41-1: the type of Velox images, K-C41-2: of JEOL maps
                compare(ctx, got, ref, "lazy" if lazy else "eager", dtype=not (lazy and f[0] in ("emd", "jeol")))
                if not lazy:
                    held.append((signals, ref, f))
                signals = None
        except ctx_violation:
            raise
        except Exception as e:
            ctx.expect(False, f"raised:{type(e).__name__}", f"{f} as {s['path']} lazy={lazy}: {type(e).__name__}: {str(e)[:300]}")
        finally:
            os.chdir(cwd)
        signals = r = got = None
        after = snapshot(where)
        ctx.expect(after == before, "folder-changed", lambda: f"{f}: {sorted(set(after.items()) ^ set(before.items()))}")
        left = [x for x in descriptors() - fds if x[1].startswith(where)]
        if lazy:
            left = []
        if left:
            gc.collect()
            left = [x for x in descriptors() - fds if x[1].startswith(where)]
        ctx.expect(not left or any(h[2] == f for h in held), "open-file", f"{f} lazy={lazy}: {left}")
    for signals, ref, f in held:
        compare(ctx, freeze(signals), ref, "later", True)
    if not n:
        raise Reject("no readable file")
    ctx.nontrivial(n > 1 or c[0]["path"] != "str" or c[0]["lazy"])


def probe(f):
    def run(ctx):
        p = place(f, ctx.path("d"))
        a, b = (ctx.sut(read, f[0], p, lazy=z) for z in (False, True))
        for x, y in zip(a, b):
            ctx.expect(x["data"].dtype == y["data"].dtype, "dtype", f"{x['data'].dtype} eagerly, {y['data'].dtype} lazily")

    return run


from ..core import Violation as ctx_violation  # noqa: E402

PROP = Prop(
    "C41",
    "at least two files are read, or the file is given as a path object or relative path, or read lazily",
    [Sub("histories", cases, check, quick=320, shards=8)],
    probes={
        "K-C41-1": probe(("emd", None, "fei_example_tem_stack.emd")),
        "K-C41-2": probe(("jeol", None, "Sample/00_View000/View000_0000006.pts")),
    },
)

"""C51: EMD files of Prismatic simulations and of py4DSTEM."""

import hypothesis.strategies as st
import numpy as np

from .. import gen, sigs
from ..core import Prop, Sub

OM = {
    "i": "filenameAtoms",
    "a": "algorithm",
    "fx": "interpolationFactorX",
    "fy": "interpolationFactorY",
    "F": "numFP",
    "ns": "numSlices",
    "E": "E0",
    "A": "alphaBeamMax",
    "df": "probeDefocus",
    "px": "realspacePixelSizeX",
    "py": "realspacePixelSizeY",
    "sa": "probeSemiangle",
    "d": "detectorAngleStep",
    "tx": "probeXtilt",
    "wx": "scanWindowX",
    "2D": "integrationAngle",
    "C3": "C3",
    "xyz": "xyz",
}


@st.composite
def calibration(draw):
    return dict(offset=draw(st.sampled_from([0.0, 0.5, -2.25, 10.0])), scale=draw(st.sampled_from([0.25, 0.5, 1.0, 0.125, 3.0])))


@st.composite
def simulations(draw):
    n = draw(st.integers(1, 4))
    size = st.integers(1, 5)
    outputs = draw(st.lists(st.sampled_from(["CBED_array", "annular_detector", "virtual_detector", "DPC_CoM", "ppotential"]), min_size=1, max_size=5, unique=True))
    return dict(
        n=n,
        outputs=outputs,
        rx=dict(draw(calibration()), size=draw(size)),
        ry=dict(draw(calibration()), size=draw(size)),
        px=dict(draw(calibration()), size=draw(size)),
        py=dict(draw(calibration()), size=draw(size)),
        pz=dict(draw(calibration()), size=draw(size)),
        qx=dict(draw(calibration()), size=draw(size)),
        qy=dict(draw(calibration()), size=draw(size)),
        angle=dict(draw(calibration()), size=draw(size)),
        dpc=draw(st.integers(1, 2)),
        slices=draw(st.integers(1, 20)),
        thickness=draw(st.sampled_from([0.5, 1.0, 2.0, 1.3575, 2.715])),
        start=draw(st.sampled_from(["zero", "zero", "first", "none"])),
        uniform=draw(st.sampled_from([True, True, False])),
        tile=draw(st.integers(1, 5)),
        params={k: draw(st.one_of(st.integers(-5, 500), st.floats(-100, 100, width=32))) for k in draw(st.lists(st.sampled_from(sorted(k for k in OM if k not in ("ns", "i", "a"))), max_size=6, unique=True))},
        atoms=draw(st.sampled_from([None, "/home/a/Si.XYZ"])),
        dt=draw(st.sampled_from(["f4", "f4", "f8"])),
        seed=draw(gen.seeds),
        chunked=draw(st.booleans()),
        top=draw(st.sampled_from([(0, 5), (0, 4)])),
        micro=draw(st.booleans()),
        select=draw(st.lists(st.integers(0, 30), min_size=1, max_size=3)),
    )


def values(a):
    return (a["offset"] + a["scale"] * np.arange(a["size"])).astype("f4")


def encode(f, path):
    """Writes the file and returns {path: (array as stored, dimensions)}."""
    import h5py

    R = [("R_x", "[n_m]", f["rx"]), ("R_y", "[n_m]", f["ry"])]
    P = [("R_x", "[n_m]", f["px"]), ("R_y", "[n_m]", f["py"]), ("R_z", "[n_m]", f["pz"])]
    dims = {
        "CBED_array": R + [("Q_x", "[n_m^-1]", f["qx"]), ("Q_y", "[n_m^-1]", f["qy"])],
        "annular_detector": R,
        "virtual_detector": R + [("bin_outer_angle", "[mrad]", f["angle"])],
        "DPC_CoM": R + [(None, None, dict(size=f["dpc"]))],
        "ppotential": P,
    }
    out = {}
    seed = f["seed"]
    with h5py.File(path, "w") as h:
        top = h.create_group("4DSTEM_simulation")
        top.attrs["emd_group_type"] = np.int32(2)
        top.attrs["version_major"], top.attrs["version_minor"] = np.int32(f["top"][0]), np.int32(f["top"][1])
        for k in ("datacubes", "diffractionslices", "pointlistarrays", "pointlists", "realslices"):
            top.create_group("data/" + k)
        for o in f["outputs"]:
            folder, ds = ("datacubes", "datacube") if o == "CBED_array" else ("realslices", "realslice")
            for i in range(1 if o == "ppotential" else f["n"]):
                g = top["data/" + folder].create_group(o if o == "ppotential" else f"{o}_depth{i:04d}")
                g.attrs["emd_group_type"] = np.int32(1)
                g.attrs["metadata"] = np.int32(0)
                shape = tuple(d[2]["size"] for d in dims[o])
                seed += 1
                a = gen.make_array((f["dt"], shape, "rand", seed))
                g.create_dataset(ds, data=a, chunks=tuple(max(1, s // 2) for s in shape) if f["chunked"] else None)
                for j, (name, units, c) in enumerate(dims[o]):
                    if name is None:
                        g.create_dataset(f"dim{j + 1}", data=np.array([b"DPC_CoM_x", b"DPC_CoM_y"][: c["size"]], dtype="S256"))
                        continue
                    d = g.create_dataset(f"dim{j + 1}", data=values(c))
                    d.attrs["name"] = np.bytes_(name)
                    d.attrs["units"] = np.bytes_(units)
                out[f"{g.name}/{ds}".lstrip("/")] = (a, dims[o])
        p = top.create_group("metadata/metadata_0/original/simulation_parameters")
        p.attrs["ns"] = np.int32(f["slices"])
        p.attrs["s"] = np.float32(f["thickness"])
        if f["start"] != "none":
            p.attrs["zs"] = np.float32(0 if f["start"] == "zero" else step(f))
        total = step(f) * f["n"] * (1 if f["uniform"] else 1.25)
        p.attrs["t"] = np.array([1, 1, f["tile"]], dtype="f4")
        p.attrs["c"] = np.array([total / f["tile"]] * 3, dtype="f4")
        if f["atoms"]:
            p.attrs["i"] = np.bytes_(f["atoms"])
        for k, v in f["params"].items():
            p.attrs[k] = v
        if f["micro"]:
            h.create_group("microscope").attrs["voltage"] = 200
    return out


def step(f):
    return float(f["slices"] * np.float32(f["thickness"]))


UNITS = {"[n_m]": "nm", "[n_m^-1]": "1 / nm", "[mrad]": "mrad", None: None}


def axis(d, navigate):
    name, units, c = d
    e = dict(name=name, units=UNITS[units], size=c["size"], offset=0.0, scale=1.0, navigate=navigate)
    if name is not None:
        e.update(offset=c["offset"], scale=c["scale"] if c["size"] > 1 else 1.0)
    return e


def expected(f, o, arrays, dims):
    """Data and axes of a series of depths (or a single one)."""
    cube = o == "CBED_array"
    axes = [axis(d, cube and i < 2 or not cube and i > 1) for i, d in enumerate(dims)]
    if not cube:  # stored as x, y(, z)
        arrays, axes = [a.T for a in arrays], axes[::-1]
    if len(arrays) == 1:
        return arrays[0], axes
    depth = dict(name=o + "_depth", size=len(arrays), offset=0.0, scale=1.0, units=None, navigate=True)
    if f["uniform"]:
        depth.update(scale=step(f), offset=0.0 if f["start"] == "none" else step(f), units="Å")
    # dimensions of size 1 are removed from series
    keep = [i for i, a in enumerate(axes) if a["size"] > 1]
    data = np.stack(arrays)
    return data.reshape((len(arrays),) + tuple(axes[i]["size"] for i in keep)), [depth] + [axes[i] for i in keep]


def same(ctx, f, r, data, axes, title, o, lazy):
    sigs.check_structure(ctx, r)
    sigs.check_data(ctx, r["data"], data, lazy=lazy)
    ctx.expect(len(r["axes"]) == len(axes), "number of axes", f"{r['axes']} instead of {axes}")
    for i, (a, e) in enumerate(zip(r["axes"], axes)):
        for k in ("name", "units", "size", "navigate"):
            ctx.expect(a.get(k) == e[k], f"axis {k}", f"{a} instead of {e}")
        for k in ("scale", "offset"):
            ctx.expect(gen.close(a[k], e[k], 1e-5, 1e-6), f"axis {k}", f"{a} instead of {e}")
        ctx.expect(a["index_in_array"] == i, "axis index", a)
    md, om = r["metadata"], r["original_metadata"]
    ctx.expect(md["General"] == {"title": title, "original_filename": "simulation.emd"}, "General", f"{md['General']} instead of {title!r}")
    ctx.expect(md["Signal"]["signal_type"] == ("electron_diffraction" if o == "CBED_array" else ""), "signal type", f"{md['Signal']} of {o}")
    sp = om["simulation_parameters"]
    w = {"numSlices": f["slices"], "sliceThickness": np.float32(f["thickness"])}
    w.update({OM[k]: v for k, v in f["params"].items()})
    if f["start"] != "none":
        w["zStart"] = 0.0 if f["start"] == "zero" else step(f)
    for k, v in w.items():
        ctx.expect(k in sp and gen.close(float(sp[k]), float(v), 1e-6), f"simulation parameter {k}", f"{sp.get(k)!r} instead of {v!r}")
    ctx.expect(np.array_equal(sp["tile"], [1, 1, f["tile"]]), "simulation parameter tile", sp["tile"])
    if f["atoms"]:
        ctx.expect(sp["filenameAtoms"] in (f["atoms"], f["atoms"].encode()), "simulation parameter filenameAtoms", sp["filenameAtoms"])
    if f["micro"]:
        ctx.expect(om.get("microscope") == {"voltage": 200}, "microscope", om.get("microscope"))


def check(f, ctx):
    from rsciio.emd import file_reader

    p = ctx.path("simulation.emd")
    stored = encode(f, p)
    order = [o for o in ("CBED_array", "DPC_CoM", "annular_detector", "ppotential", "virtual_detector") if o in f["outputs"]]
    paths = sorted(stored)
    kind = lambda k: next(o for o in order if f"/{o}" in k)
    single = {k: (*expected(f, kind(k), [a], dims), k.split("/")[-2].replace("_depth", ""), kind(k)) for k, (a, dims) in stored.items()}
    for lazy in (False, True):
        for stack in (None, True):
            rs = ctx.sut(file_reader, p, lazy=lazy, stack_group=stack)
            ctx.expect(len(rs) == len(order), "number of signals", f"{[r['metadata']['General'] for r in rs]} instead of {order}")
            for o, r in zip(order, rs):
                mine = [k for k in paths if kind(k) == o]
                data, axes = expected(f, o, [stored[k][0] for k in mine], stored[mine[0]][1])
                same(ctx, f, r, data, axes, o, o, lazy)
        rs = ctx.sut(file_reader, p, lazy=lazy, stack_group=False)
        ctx.expect(len(rs) == len(paths), "number of signals without stacks", f"{len(rs)} instead of {len(paths)}")
        for k, r in zip(paths, rs):
            same(ctx, f, r, *single[k], lazy)
        sel = [paths[i % len(paths)] for i in f["select"]]
        rs = ctx.sut(file_reader, p, lazy=lazy, dataset_path=list(sel))
        ctx.expect(len(rs) == len(sel), "number of signals of the paths", f"{len(rs)} instead of {sel}")
        for k, r in zip(sel, rs):
            same(ctx, f, r, *single[k], lazy)
        rs = ctx.sut(file_reader, p, lazy=lazy, dataset_path="/" + sel[0])
        ctx.expect(len(rs) == 1, "number of signals of one path", len(rs))
        same(ctx, f, rs[0], *single[sel[0]], lazy)
    ctx.label(*order, "series" if f["n"] > 1 else "one depth", "uniform" if f["uniform"] else "non-uniform")
    ctx.nontrivial(f["n"] > 1 and order != ["ppotential"])


@st.composite
def trees(draw):
    shape = tuple(draw(st.integers(1, 5)) for _ in range(4))
    return dict(
        shape=shape,
        dt=draw(st.sampled_from(["f4", "u2", "u1", "i4"])),
        seed=draw(gen.seeds),
        dims=[draw(calibration()) for _ in range(4)],
        more=[dict(name=draw(st.sampled_from(["dp_mean", "vBF", "vADF", "a_b"])) + str(i), real=draw(st.booleans())) for i in range(draw(st.integers(0, 3)))],
        lazy=draw(st.booleans()),
        chunked=draw(st.booleans()),
    )


def check_tree(f, ctx):
    """py4DSTEM (EMD 1.0): datacube with images below it."""
    import h5py

    from rsciio.emd import file_reader

    p = ctx.path("tree.h5")
    names = ["Rx", "Ry", "Qx", "Qy"]
    units = ["nm", "nm", "A^-1", "A^-1"]
    given = ["nm", "nm", "1 / Å", "1 / Å"]
    cube = gen.make_array((f["dt"], f["shape"], "rand", f["seed"]))
    exp = {}

    def array(h, path, a, which):
        g = h.create_group(path)
        g.attrs["emd_group_type"] = "array"
        g.attrs["python_class"] = "Array"
        g.create_dataset("data", data=a, chunks=tuple(max(1, s // 2) for s in a.shape) if f["chunked"] else None).attrs["units"] = "pixel intensity"
        axes = []
        for i, j in enumerate(which):
            c = f["dims"][j]
            d = g.create_dataset(f"dim{i}", data=c["offset"] + c["scale"] * np.arange(2.0))
            d.attrs["name"], d.attrs["units"] = names[j], units[j]
            axes.append(dict(name=names[j], units=given[j], size=a.shape[i], offset=c["offset"], scale=c["scale"]))
        exp[path + "/data"] = (a, axes, path.split("/")[-1])

    with h5py.File(p, "w") as h:
        h.attrs["emd_group_type"] = "file"
        h.attrs["version_major"], h.attrs["version_minor"] = 1, 0
        h.create_group("datacube_root").attrs["emd_group_type"] = "root"
        array(h, "datacube_root/datacube", cube, (0, 1, 2, 3))
        for i, m in enumerate(f["more"]):
            w = (0, 1) if m["real"] else (2, 3)
            array(h, "datacube_root/datacube/" + m["name"], gen.make_array(("f4", tuple(f["shape"][j] for j in w), "rand", f["seed"] + i + 1)), w)
        h.create_group("datacube_root/metadatabundle").attrs["emd_group_type"] = "metadatabundle"

    def same(r, k):
        a, axes, title = exp[k]
        sigs.check_structure(ctx, r)
        sigs.check_data(ctx, r["data"], a, lazy=f["lazy"])
        sigs.check_axes(ctx, r["axes"], [dict(e, _tol=(1e-9, 1e-11)) for e in axes])
        ctx.expect(r["metadata"]["General"]["title"] == title, "title", f"{r['metadata']['General']} instead of {title}")
        ctx.expect(r["original_metadata"]["EMD_version"] == "1.0", "version", r["original_metadata"])

    rs = ctx.sut(file_reader, p, lazy=f["lazy"], stack_group=False)
    ctx.expect(len(rs) == len(exp), "number of signals", f"{[r['metadata']['General'] for r in rs]} of {sorted(exp)}")
    for r, k in zip(rs, sorted(exp)):
        same(r, k)
    for k in exp:
        rs = ctx.sut(file_reader, p, lazy=f["lazy"], dataset_path=k)
        ctx.expect(len(rs) == 1, "number of signals of one path", len(rs))
        same(rs[0], k)
    ctx.label("py4DSTEM")
    ctx.nontrivial(bool(f["more"]))


PROP = Prop("C51", "series of several depths, or a tree of several arrays, were read and compared with what was stored", [Sub("prismatic", simulations, check, quick=300, shards=6), Sub("py4DSTEM", trees, check_tree, quick=160, shards=2)])

"""C46: XML trees as dictionaries, decimal commas of MSXML."""

import ast
import re
import xml.etree.ElementTree as ET

import hypothesis.strategies as st

from .. import gen
from ..core import Prop, Reject, Sub

TAGS = ["A", "B", "Ccc", "ClassInstance", "Name", "Value", "x1", "Items"]
plain = st.text(st.characters(min_codepoint=32, max_codepoint=126, exclude_characters="\\") | st.sampled_from("µé电"), min_size=1, max_size=8)
num = st.integers(-(10**9), 10**9).map(str) | gen.floats(-1e9, 1e9).map(repr) | st.sampled_from(["0", "1e5", "1E-7", "007", "0x1F", "1_0", "8842_80", "-3", "+4", "1e400", "inf"])
lit = st.sampled_from(["True", "None", "[1, 2]", "(1, 'a')", "{'a': 1}", "'5'", '"x"', "{[1]}", "{{}}", "()", "1,2", "1+2j", "b'a'", "a b", "[1", "'", "--1", "1 2", "#", "2024-01-02"])
text = st.one_of(plain, num, lit)
blank = st.sampled_from([None, None, "", " ", "\n  "])


@st.composite
def node(draw, depth=3, tags=TAGS):
    kids = draw(st.lists(st.deferred(lambda: node(depth - 1)), max_size=4)) if depth and draw(st.integers(0, 3)) else []
    return dict(
        tag=draw(st.sampled_from(tags)),
        attrib=draw(st.dictionaries(st.sampled_from(["a", "Name", "Type", "B"]), text, max_size=2)),
        text=draw(st.one_of(blank, text, text)) if not kids or not draw(st.integers(0, 2)) else draw(blank),
        kids=[(k, draw(st.one_of(blank, blank, text))) for k in kids],
    )


@st.composite
def cases(draw):
    return dict(
        tree=draw(node()),
        pre=draw(st.sampled_from(["@", "XmlClass", ""])),
        dub=draw(st.sampled_from(["#value", "#text"])),
        flatten=draw(st.sampled_from([None, "ClassInstance", ["ClassInstance", "Items"], []])),
        mode=draw(st.sampled_from(["skip", "first", "cat", "list"])),
        string=draw(st.booleans()),
    )


def build(n):
    e = ET.Element(n["tag"], n["attrib"])
    e.text = n["text"]
    for k, tail in n["kids"]:
        c = build(k)
        c.tail = tail
        e.append(c)
    return e


def value(s):
    try:
        return ast.literal_eval(s)
    except Exception:
        return s


def content(n, c):
    flat = [c["flatten"]] if isinstance(c["flatten"], str) else c["flatten"] or []
    t = (n["text"] or "").strip()
    if not n["kids"]:
        if not n["attrib"]:
            return value(t) if t else None
        d = {k: value(v) for k, v in n["attrib"].items()}
        if t:
            d[c["dub"]] = value(t)
        return d
    found = {}
    for k, _ in n["kids"]:
        v = content(k, c)
        # a flattened element gives its entries to the one above
        for key, x in v.items() if k["tag"] in flat and isinstance(v, dict) else [(k["tag"], v)]:
            found.setdefault(key, []).append(x)
    d = {k: v[0] if len(v) == 1 else v for k, v in found.items()}
    for k, v in n["attrib"].items():
        d[c["pre"] + k] = value(v)
    if t and c["mode"] != "skip":
        tails = [(tail or "").strip() for _, tail in n["kids"]]
        if c["mode"] == "first" or not any(tails):
            d[c["dub"]] = value(t)
        else:
            d["#interchild_text"] = [t] + tails if c["mode"] == "list" else t + "".join(tails)
    return d


def check(c, ctx):
    from rsciio.utils.xml import XmlToDict

    e = build(c["tree"])
    if c["string"]:
        e = ET.fromstring(ET.tostring(e, encoding="utf-8"))
    before = ET.tostring(e)
    x = ctx.sut(XmlToDict, dub_attr_pre_str=c["pre"], dub_text_str=c["dub"], tags_to_flatten=c["flatten"], interchild_text_parsing=c["mode"])
    flat = [c["flatten"]] if isinstance(c["flatten"], str) else c["flatten"] or []
    v = content(c["tree"], c)
    want = v if c["tree"]["tag"] in flat and isinstance(v, dict) else {c["tree"]["tag"]: v}
    ctx.label(c["mode"], "flat" if flat else "", f"kids {min(3, len(c['tree']['kids']))}")
    ctx.nontrivial(len(c["tree"]["kids"]) > 0)
    for _ in range(2):
        got = ctx.sut(x.dictionarize, e)
        d = gen.deep_diff(got, want)
        ctx.expect(d is None, "dictionary", lambda: f"{before[:300]}: {d}")
    ctx.expect(ET.tostring(e) == before, "tree-changed", "")
    # without children
    got = ctx.sut(x.dictionarize, e, ignore_children=True)
    alone = dict(c["tree"], kids=[])
    v = content(alone, c)
    want = v if alone["tag"] in flat and isinstance(v, dict) else {alone["tag"]: v}
    d = gen.deep_diff(got, want)
    ctx.expect(d is None, "ignore-children", lambda: f"{before[:300]}: {d}")


# ------------------------------------------------------------ plain trees


@st.composite
def simple(draw, depth=3):
    """Siblings of different names; text or children, attributes without text."""
    kind = draw(st.sampled_from(["text", "kids", "kids", "attributes", "empty"] if depth else ["text", "attributes", "empty"]))
    d = dict(kind=kind)
    if kind == "text":
        d["text"] = draw(plain.filter(lambda s: s.strip()))
    if kind == "attributes" or kind == "kids" and draw(st.booleans()):
        d["attrib"] = draw(st.dictionaries(st.sampled_from(["a", "b", "c"]), plain, min_size=1, max_size=2))
    if kind == "kids":
        d["kids"] = {k: draw(simple(depth - 1)) for k in draw(st.lists(st.sampled_from(TAGS), unique=True, min_size=1, max_size=4))}
    return d


@st.composite
def simples(draw):
    return dict(tree=draw(simple()), indent=draw(st.booleans()), string=draw(st.booleans()))


def build2(tag, n):
    e = ET.Element(tag, n.get("attrib", {}))
    e.text = n.get("text")
    for k, v in n.get("kids", {}).items():
        e.append(build2(k, v))
    return e


def content2(n):
    if n["kind"] == "text":
        return n["text"]
    return dict(n.get("attrib", {})) | {k: content2(v) for k, v in n.get("kids", {}).items()}


def check_simple(c, ctx):
    from rsciio.utils.xml import convert_xml_to_dict

    e = build2("Root", c["tree"])
    if c["indent"]:
        ET.indent(e)
    s = ET.tostring(e, encoding="unicode")
    ctx.label("indented" if c["indent"] else "compact", c["tree"]["kind"])
    ctx.nontrivial(c["tree"]["kind"] == "kids")
    got = ctx.sut(convert_xml_to_dict, s if c["string"] else e)
    got = got.to_dict() if hasattr(got, "to_dict") else dict(got)
    d = gen.deep_diff(got, {"Root": content2(c["tree"])})
    ctx.expect(d is None, "converted", lambda: f"{s[:300]}: {d}")


# ------------------------------------------------------------ decimal commas


@st.composite
def numbers(draw):
    vals = []
    for _ in range(draw(st.integers(1, 5))):
        v = draw(st.integers(-(10**6), 10**6))
        f = draw(st.integers(0, 10**6))
        s = f"{v}.{f:0{draw(st.integers(1, 7))}d}"
        if draw(st.booleans()):
            s += draw(st.sampled_from(["E-7", "e-07", "E+10", "E5", "E+003", "e12"]))
        vals.append(s)
    # texts are to stay as they are
    other = draw(st.lists(plain.filter(lambda s: not re.fullmatch(r"-?\d+,\d*([Ee][+-]?\d*)?", s)), max_size=3))
    return dict(vals=vals, other=other, attr=draw(st.sampled_from(["1,5", "a", "7"])), dot=draw(st.booleans()))


def check_numbers(c, ctx):
    from rsciio.utils.xml import sanitize_msxml_float

    root = ET.Element("r", {"n": c["attr"]})
    for v in c["vals"]:
        ET.SubElement(root, "v").text = v if c["dot"] else v.replace(".", ",")
    for t in c["other"]:
        ET.SubElement(root, "t").text = t
    e = ET.fromstring(ctx.sut(sanitize_msxml_float, ET.tostring(root, encoding="utf-8")))
    got = [x.text for x in e.findall("v")]
    ctx.expect(got == c["vals"], "numbers", f"{got} expected {c['vals']}")
    ctx.expect([x.text for x in e.findall("t")] == c["other"] and e.get("n") == c["attr"], "texts", f"{ET.tostring(e)[:300]}")
    ctx.label("dots" if c["dot"] else "commas")
    ctx.nontrivial(not c["dot"])


PROP = Prop(
    "C46",
    "the root has children; numbers with decimal commas",
    [
        Sub("trees", cases, check, quick=1500, shards=4),
        Sub("plain", simples, check_simple, quick=600, shards=2),
        Sub("commas", numbers, check_numbers, quick=600, shards=2),
    ],
)

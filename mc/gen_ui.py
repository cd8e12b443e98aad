#!/usr/bin/env python3
"""Writes src/bin/ui/programs.rs: every ui! program of the families below, with the tree it stands for.

Run by hand when the families change; the check compiles and runs what is committed."""
import itertools, json, os

EXPRS = [  # (source, Debug of the value)
    ("1", "1"), ("-1", "-1"), ('"a: b"', '"a: b"'), ("a", "7"), ("a + 2 * 3", "13"), ("m::X", "5"), ("m::f(1, 2)", "(1, 2)"),
    ("a as u8", "7"), ('format!("{a},{}", 2)', '"7,2"'), ("[1, 2]", "[1, 2]"), ('(1, "t")', '(1, "t")'), ("P { x: 1 }", "P { x: 1 }"),
    ("if a > 3 { 1 } else { 2 }", "1"), ("{ let b = a; b }", "7"), ('match a { 7 => "s", _ => "o" }', '"s"'), ("s(2).len()", "2"),
    ("&a", "7"), ("!true", "false"), ("(|v: i32| v + 1)(a)", "8"), ("a < 9", "true"), ("Some::<i32>(1)", "Some(1)"),
    ('"x".to_string()', '"x"'), ("b'c'", "99"), ("1..3", "1..3"), ("i32::MAX", "2147483647"), ("tick()", "tick"), ("vec![a, a]", "[7, 7]"),
    ("P { x: a }.x", "7"), ("<i32>::MIN", "-2147483648"), ("(a)", "7"), ("r#\"q\"#", '"q"'), ("*&a", "7"), ("a == 7 && a != 8", "true"),
]
rot = itertools.count()
def ex():
    return EXPRS[next(rot) % len(EXPRS)]

class Item:
    def __init__(self, src, want, kids=None):
        self.src, self.want = src, want

def node(kind, args, calls, kids):
    return f"{kind}({'|'.join(args)})" + "".join(f".{n}={v}" for n, v in calls) + ("" if kids is None else "{" + " ".join(kids) + "}")

def leaf(k):
    e, f, g = ex(), ex(), ex()
    return {
        "bare": lambda: Item("L0", node("L0", [], [], None)),
        "parens": lambda: Item("L0()", node("L0", [], [], None)),
        "arg": lambda: Item(f"L1({e[0]})", node("L1", [e[1]], [], None)),
        "arg id": lambda: Item(f"L1({e[0]}, id: {f[0]})", node("L1", [e[1]], [("id", f[1])], None)),
        "named": lambda: Item(f"L0(classes: {e[0]}, id: {f[0]})", node("L0", [], [("classes", e[1]), ("id", f[1])], None)),
        "two args": lambda: Item(f"L2({e[0]}, {f[0]}, n: {g[0]},)", node("L2", [e[1], f[1]], [("n", g[1])], None)),
        "callback": lambda: Item(f"F1(|v: i32| v + 1, n: {e[0]})", node("F1", ["11"], [("n", e[1])], None)),
    }[k]()

def box(k, kids):
    e, f, g = ex(), ex(), ex()
    src, want = " ".join(i.src for i in kids), [i.want for i in kids if i.want]
    return {
        "box": lambda: Item(f"C0 {{ {src} }}", node("C0", [], [], want)),
        "box id": lambda: Item(f"C0(id: {e[0]}) {{ {src} }}", node("C0", [], [("id", e[1])], want)),
        "box arg": lambda: Item(f"C1({e[0]}) {{ {src} }}", node("C1", [e[1]], [], want)),
        "box both": lambda: Item(f"C2({e[0]}, {f[0]}, n: {g[0]}, id: {e[0]}) {{ {src} }}", node("C2", [e[1], f[1]], [("n", g[1]), ("id", e[1])], want)),
    }[k]()

SPLATS = {
    "var": ("..v", "V()"), "call": ("..s(2)", "S(0) S(1)"), "none": ("..s(0)", ""), "chain": ("..s(2).into_iter().rev()", "S(1) S(0)"),
    "ui": ("..ui! { L1(1) L0 }", "L1(1) L0()"), "if": ("..if a > 3 { s(1) } else { s(0) }", "S(0)"), "map": ("..(0..2).map(|i| widget! { L1(i, n: a) })", "L1(0).n=7 L1(1).n=7"),
    "some": ("..Some(widget! { C0 { L1(2) } })", "C0(){L1(2)}"), "vec": ("..vec![widget! { L0 }]", "L0()"), "block": ("..{ s(1) }", "S(0)"), "match": ("..match a { _ => s(1) }", "S(0)"),
}
def splat(k):
    return Item(*SPLATS[k])

LEAVES = ["bare", "parens", "arg", "arg id", "named", "two args", "callback"]
BOXES = ["box", "box id", "box arg", "box both"]

def make(k, kids=()):
    if k in LEAVES:
        return leaf(k)
    if k in BOXES:
        return box(k, list(kids))
    return splat(k)

def forests(n, leaves, boxes):
    """Every ordered forest of n items, as (kind, forest) lists."""
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):  # size of the first tree
        for rest in forests(n - k, leaves, boxes):
            if k == 1:
                for l in leaves:
                    yield [(l, [])] + rest
            for b in boxes:
                for kids in forests(k - 1, leaves, boxes):
                    yield [(b, kids)] + rest

def build(forest):
    return [make(k, build(kids)) for k, kids in forest]

def uses(forest, what):
    return sum((k == what) + uses(kids, what) for k, kids in forest)

progs = []
def add(items):
    progs.append((" ".join(i.src for i in items), " ".join(i.want for i in items if i.want)))

# Every expression in every place.
for e, v in EXPRS:
    add([Item(f"L1({e})", f"L1({v})")])
    add([Item(f"L2(0, {e})", f"L2(0|{v})")])
    add([Item(f"L2({e}, 0, id: 1)", f"L2({v}|0).id=1")])
    add([Item(f"L0(id: {e})", f"L0().id={v}")])
    add([Item(f"L1(2, id: {e}, n: 3)", f"L1(2).id={v}.n=3")])
    add([Item(f"C1({e}) {{ L0 }}", f"C1({v}){{L0()}}")])
    add([Item(f"C0(n: {e}) {{ }}", f"C0().n={v}{{}}")])
    add([Item(f"C2({e}, 1, id: {e}) {{ ..s(1) }}", f"C2({v}|1).id={v}{{S(0)}}")])
ALL = LEAVES + list(SPLATS)
for n, leaves, boxes in [(1, ALL, BOXES), (2, ALL, ["box", "box both"]), (3, ["arg", "call", "bare"], ["box", "box both"]), (4, ["arg id", "chain"], ["box"])]:
    for f in forests(n, leaves, boxes):
        if uses(f, "var") <= 1:
            add(build(f))

# A single widget, also as the only item of a splat.
for n, leaves, boxes in [(1, LEAVES, BOXES), (2, ["arg", "call", "var"], BOXES), (3, ["arg", "call"], ["box", "box both"])]:
    for f in forests(n, leaves, boxes):
        if len(f) == 1 and f[0][0] not in SPLATS and uses(f, "var") <= 1:
            one = build(f)[0]
            add([Item(f"..Some(widget! {{ {one.src} }})", one.want)])
# The same attribute again, many attributes, and no comma at the end or one.
for e, v in EXPRS[:8]:
    for end in ["", ","]:
        add([Item(f"L0(n: {e}, n: 2{end})", f"L0().n={v}.n=2")])
        add([Item(f"C1(3, id: {e}, n: 1, id: 2{end}) {{ L1({e}{end}) }}", f"C1(3).id={v}.n=1.id=2{{L1({v})}}")])
        add([Item(f"L2({e}, {e}, classes: {e}, n: {e}, id: {e}{end})", f"L2({v}|{v}).classes={v}.n={v}.id={v}")])
# Deep and wide trees.
for depth in range(1, 13):
    for inner in ["arg", "chain"]:
        for k in BOXES:
            it = make(inner)
            for d in range(depth):
                it = box(k, [it] if d % 2 else [leaf("bare"), it])
            add([it])
for width in range(3, 15):
    for at in range(0, width, 3):
        add([make("call" if i == at else LEAVES[i % len(LEAVES)]) for i in range(width)])
        add([box("box id", [make("map" if i == at else LEAVES[i % len(LEAVES)]) for i in range(width)])])

out = ["// Written by gen_ui.py.", "use super::*;", ""]
for i, (src, want) in enumerate(progs):
    lets = "    let a = 7;\n"
    if "..v" in src.replace("..vec", ""):
        lets += "    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of(\"V\", vec![]))];\n"
    out.append(f"fn p{i}() -> Vec<Box<dyn Widget<Msg>>> {{\n{lets}    ui! {{ {src} }}\n}}")
def rs(s):
    return json.dumps(s, ensure_ascii=False)
out.append(f"\npub const PROGRAMS: &[(&str, &str, fn() -> Vec<Box<dyn Widget<Msg>>>)] = &[")
for i, (src, want) in enumerate(progs):
    out.append(f"    ({rs(src)}, {rs(want)}, p{i}),")
out.append("];\n")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src/bin/ui/programs.rs"), "w").write("\n".join(out))
print(len(progs), "programs")

"""Projection of lambeq objects to the JSON the specification reads."""
from lambeq.backend import grammar


def ty(t):
    return [[o.name, o.z] for o in t]


def box(b):
    from lambeq.backend.grammar import Daggered, Frame, DaggeredFrame
    sp = type(b).category.Diagram.special_boxes if hasattr(type(b), 'category') else {}
    kind, dg, name, comps = 'box', 0, b.name, []
    cls = type(b)
    if isinstance(b, DaggeredFrame):
        kind, dg, name = 'frame', 1, b.frame.name
        comps = [diagram(c.to_diagram()) for c in b.components]
    elif isinstance(b, grammar.Frame):
        kind = 'frame'
        comps = [diagram(c.to_diagram()) for c in b.components]
    elif isinstance(b, grammar.Cap):
        kind = 'cap'
    elif isinstance(b, grammar.Cup):
        kind = 'cup'
    elif isinstance(b, grammar.Swap):
        kind = 'swap'
    elif isinstance(b, grammar.Spider):
        kind = 'spider'
    elif isinstance(b, Daggered):
        dg = 1
        inner = b.box
        name = inner.name
        kind = 'word' if isinstance(inner, grammar.Word) else 'box'
        if isinstance(inner, Daggered):
            kind = 'dagdag'
    elif isinstance(b, grammar.Word):
        kind = 'word'
    n = {'cap': 'CAP', 'cup': 'CUP', 'swap': 'SWAP', 'spider': 'SPIDER'}.get(kind, str(name))
    return {'k': kind, 'n': n, 'd': ty(b.dom), 'c': ty(b.cod),
            'z': int(b.z or 0), 'dg': dg, 'f': comps}


def layer(ly):
    return {'L': ty(ly.left), 'b': box(ly.box), 'R': ty(ly.right)}


def diagram(d):
    d = d.to_diagram()
    return {'dom': ty(d.dom), 'cod': ty(d.cod),
            'layers': [layer(x) for x in d.layers]}


def build_ty(j, Ty=grammar.Ty):
    out = Ty()
    for n, z in j:
        out = out @ Ty(n, z=z)
    return out

"""Random grammar types, boxes and diagrams."""
from lambeq.backend.grammar import (Box, Cap, Cup, Diagram, Id, Layer, Spider,
                                    Swap, Ty, Word)

ATOMS = ['n', 's', 'p']


def atom(rng, zs=(-1, 0, 0, 0, 1)):
    return Ty(rng.choice(ATOMS), z=rng.choice(zs))


def ty(rng, lo=0, hi=3, **k):
    t = Ty()
    for _ in range(rng.randint(lo, hi)):
        t = t @ atom(rng, **k)
    return t


def lay(left, b, right):
    """A layer as a diagram, by direct construction (no operations used)."""
    return Layer(left=left, box=b, right=right)


def raw(dom, layers):
    """A diagram by direct construction from layers."""
    cod = layers[-1].cod if layers else dom
    return Diagram(dom=dom, cod=cod, layers=list(layers))


class Namer:
    def __init__(self, prefix='f'):
        self.p, self.i = prefix, 0

    def __call__(self):
        self.i += 1
        return f'{self.p}{self.i}'


def diagram(rng, dom=None, n_layers=5, max_width=6, namer=None, names=None,
            kinds=('box', 'box', 'word', 'cup', 'cap', 'swap', 'spider'),
            zs=(-1, 0, 0, 0, 1), z_boxes=(0,), max_arity=2, dagger=0.0):
    """A random well typed diagram, by direct construction."""
    if dom is None:
        dom = ty(rng, 0, 3, zs=zs)
    cur, layers = dom, []
    for _ in range(n_layers):
        kind = rng.choice(kinds)
        w = len(cur)
        objs = [*cur]

        def put(off, b):
            nonlocal cur
            ly = lay(cur[:off], b, cur[off + len(b.dom):])
            layers.append(ly)
            cur = ly.cod

        if kind == 'cup':
            cand = [i for i in range(w - 1) if objs[i].r == objs[i + 1]
                    or objs[i].l == objs[i + 1]]
            if not cand:
                kind = 'cap' if rng.random() < .3 else 'box'
            else:
                i = rng.choice(cand)
                put(i, Cup(objs[i], objs[i + 1],
                           is_reversed=objs[i].r != objs[i + 1]))
                continue
        if kind == 'cap':
            if w + 2 > max_width:
                continue
            a = atom(rng, zs=zs)
            rev = rng.random() < .3
            i = rng.randint(0, w)
            put(i, Cap(a, a.r if rev else a.l, is_reversed=rev))
            continue
        if kind == 'swap':
            if w < 2:
                continue
            i = rng.randint(0, w - 2)
            put(i, Swap(objs[i], objs[i + 1]))
            continue
        if kind == 'spider':
            i = rng.randint(0, w)
            a = objs[i] if i < w else atom(rng, zs=zs)
            m = 0
            while i + m < w and objs[i + m] == a and m < 3:
                m += 1
            m = rng.randint(0, m)
            k = rng.randint(0 if m else 1, max(1, min(3, max_width - w + m)))
            put(i, Spider(a, m, k))
            continue
        if kind == 'word':
            if w >= max_width:
                continue
            c = ty(rng, 1, min(3, max_width - w), zs=zs)
            i = rng.randint(0, w)
            nm = namer() if namer else rng.choice(names or ['u', 'v'])
            put(i, Word(nm, c))
            continue
        m = rng.randint(0, min(max_arity, w))
        i = rng.randint(0, w - m)
        c = ty(rng, 0 if m else 1, max(0 if m else 1, min(max_arity, max_width - w + m)), zs=zs)
        nm = namer() if namer else rng.choice(names or ['f', 'g', 'h'])
        z = rng.choice(z_boxes)
        if dagger and rng.random() < dagger:
            b = Box(nm, c, cur[i:i + m], z).dagger()
        else:
            b = Box(nm, cur[i:i + m], c, z)
        put(i, b)
    return raw(dom, layers)


def close_cups(rng, d, p=0.8):
    """Append cups on adjacent cuppable pairs."""
    layers = list(d.layers)
    cur = d.cod
    while True:
        objs = [*cur]
        cand = [i for i in range(len(objs) - 1) if objs[i].r == objs[i + 1]]
        if not cand or rng.random() > p:
            return raw(d.dom, layers)
        i = rng.choice(cand)
        ly = lay(cur[:i], Cup(objs[i], objs[i + 1]), cur[i + 2:])
        layers.append(ly)
        cur = ly.cod

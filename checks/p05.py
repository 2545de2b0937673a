"""P05: exact evaluation of tensor diagrams, judged by spec/P05Trace.tla."""
import sys
sys.path.insert(0, '/verif')
import numpy as np
from lambeq.backend import numerical_backend as nb
from lambeq.backend.tensor import (Box, Cap, Cup, Daggered, Diagram, Dim, Id,
                                   Layer, Spider, Swap)
from vlib.core import attempt, main


def dims(t):
    return [int(d) for d in t.dim]


class BoxTable:
    """Base data of the boxes we made, by name (names are unique)."""

    def __init__(self, rng, be=''):
        self.rng, self.n, self.data, self.be = rng, 0, {}, be

    def make(self, dom, cod):
        self.n += 1
        name = f'b{self.n}'
        size = int(np.prod(dims(dom) + dims(cod), dtype=int))
        cplx = self.rng.random() < .5
        vals = [(self.rng.choice([0, 1, -1, 2, 1]), self.rng.choice([0, 1, -1]) if cplx else 0)
                for _ in range(size)]
        arr = np.array([complex(a, b) if cplx else a for a, b in vals])
        r = self.rng.random()
        shape = tuple(dims(dom) + dims(cod))
        data = arr.reshape(shape) if r < .6 else arr if r < .8 else arr.reshape(shape).tolist()
        if size == 1 and r > .8:
            data = complex(arr[0]) if cplx else int(arr[0])
        if self.be == 'pytorch':
            import torch
            data = torch.tensor(arr, dtype=torch.complex64)
            if r < .7:
                data = data.reshape(shape)
        self.data[name] = [list(v) for v in vals]
        return Box(name, dom, cod, data)

    def proj_box(self, b):
        k = ('cup' if isinstance(b, Cup) else 'cap' if isinstance(b, Cap) else
             'swap' if isinstance(b, Swap) else 'spider' if isinstance(b, Spider) else 'box')
        dg, z, name = 0, b.z, b.name
        if isinstance(b, Daggered):
            dg, z, name = 1, b.box.z, b.box.name
        return {'k': k, 'd': dims(b.dom), 'c': dims(b.cod), 'z': int(z), 'dg': dg,
                'data': self.data[name] if k == 'box' else []}

    def proj(self, d):
        return {'dom': dims(d.dom), 'cod': dims(d.cod),
                'layers': [{'L': dims(y.left), 'b': self.proj_box(y.box), 'R': dims(y.right)}
                           for y in d.layers]}


def rand_dim(rng, lo, hi, choices=(1, 2, 2, 2, 3, 4)):
    return Dim(*[rng.choice(choices) for _ in range(rng.randint(lo, hi))])


def total(t):
    return int(np.prod(dims(t), dtype=int))


def rand_diagram(rng, tab, dom=None, n=4, cap=48):
    cur = dom if dom is not None else rand_dim(rng, 0, 2)
    dom0, layers = cur, []
    for _ in range(n):
        objs, w = [*cur], len(cur)
        for _ in range(15):
            r = rng.random()
            if r < .45:
                m = rng.randint(0, min(2, w))
                i = rng.randint(0, w - m)
                d, c = cur[i:i + m], rand_dim(rng, 0, 2)
                q = rng.random()
                if q < .55:
                    b = tab.make(d, c)
                elif q < .75:
                    b = tab.make(c, d).dagger()
                elif q < .9:
                    b = tab.make(d[::-1], c[::-1]).rotate(rng.choice([1, -1, 3]))
                else:
                    b = tab.make(c[::-1], d[::-1]).rotate(1).dagger()
            elif r < .6 and w > 1:
                i = rng.randint(0, w - 2)
                b = Swap(objs[i], objs[i + 1])
            elif r < .7:
                a = Dim(rng.choice([2, 3, 4]))
                i = rng.randint(0, w)
                b = Cap(a, a)
            elif r < .85:
                m = [k for k in range(w - 1) if objs[k] == objs[k + 1]]
                if not m:
                    continue
                i = rng.choice(m)
                b = Cup(objs[i], objs[i])
            else:
                i = rng.randint(0, w)
                a = objs[i] if i < w else Dim(rng.choice([2, 3]))
                m = 0
                while i + m < w and objs[i + m] == a and m < 2:
                    m += 1
                m = rng.randint(0, m)
                b = Spider(a, m, rng.randint(0 if m else 1, 2))
            left, right = cur[:i], cur[i + len(b.dom):]
            if len(dims(left @ b.cod @ right)) > 5 or total(left @ b.cod @ right) * total(dom0) > cap * 3:
                continue
            ly = Layer(left=left, box=b, right=right)
            layers.append(ly)
            cur = ly.cod
            break
    return Diagram(dom=dom0, cod=cur, layers=layers)


def result(d, be='', dtype=None):
    """Evaluate in the real code; exact Gaussian integers or nothing."""
    def go():
        d2 = d.to_diagram()
        dt = dtype
        if be:
            with nb.backend(be):
                if be == 'pytorch':
                    dt = np.complex64
                r = d2.eval(dtype=dt)
                if be == 'pytorch':
                    r = r.resolve_conj().detach().numpy()
        else:
            r = d2.eval(dtype=dt) if dt else d2.eval()
        r = np.asarray(r)
        flat = r.reshape(-1)
        out = []
        for x in flat:
            x = complex(x)
            a, b = round(x.real), round(x.imag)
            if abs(x - complex(a, b)) > 1e-3:
                out.append([str(x), ''])
            else:
                out.append([a, b])
        return {'dom': dims(d2.dom), 'cod': dims(d2.cod),
                'shape': [int(s) for s in r.shape], 'v': out}
    ok, r = attempt(go, limit=30)
    return {'ok': ok, 'be': be, **(r if ok else {'err': r})}


def case(rng, be=''):
    tab = BoxTable(rng, be)
    events, pool = [], []

    def add(op, a, obj, **k):
        ok, v = (True, obj) if isinstance(obj, Diagram) else attempt(obj)
        if not ok:
            events.append({'op': op, 'a': a, 'ok': False, 'be': be, 'err': v, **k})
            pool.append(None)
            return
        pool.append(v)
        events.append({'op': op, 'a': a, **k,
                       **result(v, be, dtype=(np.complex64 if rng.random() < .3 else None))})

    a = rand_diagram(rng, tab, n=rng.randint(0, 5))
    add('given', [], a, d=tab.proj(a))
    b = rand_diagram(rng, tab, dom=a.cod, n=rng.randint(1, 3))
    add('given', [], b, d=tab.proj(b))
    add('dagger', [1], lambda: a.dagger())
    z = rng.choice([-2, -1, 1, 2, 3])
    add('rotate', [1, z], lambda: a.rotate(z))
    add('dagger', [4], lambda: pool[3].dagger())
    if total(a.dom) * total(a.cod) <= 64:
        add('transpose', [1], lambda: a.transpose(left=rng.random() < .5))
    if total(a.dom) * total(b.cod) <= 200:
        add('then', [1, 2], lambda: a >> b)
    if total(a.dom) * total(a.cod) * total(b.dom) * total(b.cod) <= 700:
        add('tensor', [1, 2], lambda: a @ b)
    add('same', [1], lambda: a.remove_snakes())
    add('same', [1], lambda: Diagram.from_json(a.to_json()) if rng.random() < 0 else a[:])
    if rng.random() < .5 and pool[2] is not None:
        add('dagger', [3], lambda: pool[2].dagger())
    return {'events': events}


def ctor_case(rng, be=''):
    events = []

    def add(op, a, f):
        ok, v = attempt(f)
        events.append({'op': op, 'a': a, **(result(v, be) if ok else {'ok': False, 'be': be, 'err': v})})
    for ds in ([2], [3], [4], [2, 3], [2, 2], [3, 2]):
        t = Dim(*ds)
        add('cups', [ds], lambda: Diagram.cups(t, t[::-1]))
        add('caps', [ds], lambda: Diagram.caps(t, t[::-1]))
        for a, b in ((1, 1), (1, 2), (2, 1), (0, 1), (1, 0), (2, 2), (0, 2)):
            if len(ds) * (a + b) <= 6:
                add('spider', [ds, a, b], lambda: Spider(t, a, b))
        for es in ([2], [3], [2, 3]):
            add('swap', [ds, es], lambda: Diagram.swap(t, Dim(*es)))
    return {'events': events}


def run(chk):
    rng = chk.rng
    chk.model('P05Model', cfg='P05ModelThorough.cfg' if chk.thorough else None)
    cases = [case(rng) for _ in range(chk.n(250, 3000))]
    chk.conform('P05Trace', cases, label='random tensor diagrams')
    chk.conform('P05Trace', [ctor_case(rng), ctor_case(rng, 'jax'), ctor_case(rng, 'pytorch')],
                label='structural tensors')
    chk.conform('P05Trace', [case(rng, 'pytorch') for _ in range(chk.n(40, 400))],
                label='pytorch backend')
    chk.conform('P05Trace', [case(rng, 'jax') for _ in range(chk.n(25, 200))],
                label='jax backend')


if __name__ == '__main__':
    main('P05', run)

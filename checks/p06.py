"""P06: exact circuit simulation, judged by spec/P06Trace.tla."""
import sys
sys.path.insert(0, '/verif')
import numpy as np
from lambeq.backend import quantum as Q
from lambeq.backend.quantum import (Bra, Controlled, Diagram, Id, Ket, Layer, Scalar, bit, qubit,
                                    generate_cap, generate_cup, generate_spider, to_circuital)
from vlib.core import attempt, main
from vlib import qgen


def result(d, mixed, force=False, noval=False):
    def go():
        d2 = d.to_diagram()
        if noval:
            arr, twos = np.zeros(0), True
        else:
            arr = np.asarray(d2.eval(mixed=True) if mixed and (force or not d2.is_mixed) else d2.eval())
            twos = all(s == 2 for s in arr.shape)
        return {'dom': qgen.w(d2.dom), 'cod': qgen.w(d2.cod), 'twos': twos,
                'noval': noval, 'v': [qgen.fixed(x) for x in arr.reshape(-1)]}
    ok, r = attempt(go, limit=30)
    return {'ok': ok, 'mixed': mixed, **(r if ok else {'err': r})}


class Hist:
    def __init__(self, rng, mixed):
        self.rng, self.mixed, self.events, self.pool = rng, mixed, [], []

    def add(self, op, a, fn, **k):
        a = list(a) + [1] * (2 - len(a))
        ok, v = (True, fn) if isinstance(fn, Diagram) else attempt(fn)
        self.pool.append(v if ok else None)
        e = {'op': op, 'a': a, **k}
        if ok:
            # a single, unambiguous reading: mixed evaluation of a case is doubled
            if self.mixed and not v.to_diagram().is_mixed:
                e.update(result(v, True, force=True))
            else:
                e.update(result(v, self.mixed))
        else:
            e.update({'ok': False, 'mixed': self.mixed, 'err': v})
        self.events.append(e)
        return v if ok else None


def small(a, b, lim):
    return len(a.dom) + len(a.cod) + len(b.dom) + len(b.cod) <= lim


def pure_case(rng, n=6):
    h = Hist(rng, False)
    g = qgen.Gen(rng, units=True)
    a = g.diagram(n=rng.randint(1, n))
    h.add('given', [], a, d=qgen.diagram(a, g.data))
    b = g.diagram(dom=a.cod, n=rng.randint(1, 4))
    h.add('given', [], b, d=qgen.diagram(b, g.data))
    h.add('dagger', [1], lambda: a.dagger())
    z = rng.choice([1, -1, 2, 3])
    h.add('rotate', [1, z], lambda: a.rotate(z))
    if h.pool[3] is not None:
        h.add('dagger', [4], lambda: h.pool[3].dagger())
        h.add('rotate', [4, 1], lambda: h.pool[3].rotate(1))
    h.add('then', [1, 2], lambda: a >> b)
    if small(a, b, 9):
        h.add('tensor', [1, 2], lambda: a @ b)
    if len(a.cod) >= 1 and len(a.cod) + len(a.dom) <= 6:
        q = rng.sample(range(len(a.cod)), min(len(a.cod), rng.randint(1, 3)))
        base = rng.choice('XYZHST') if len(q) == 1 else rng.choice('XYZ') if len(q) == 2 else rng.choice('XZ')
        rot = rng.choice(['Rx', 'Ry', 'Rz']) if rng.random() < .4 and len(q) < 3 else None
        name = ('C' * (len(q) - 1)) + (rot or base)
        gb = getattr(Q, base) if not rot else getattr(Q, rot)(rng.randrange(-4, 8) / 4)
        args = ([gb.phase] if rot else []) + q
        h.add('apply', [1, qgen.box(gb), [x + 1 for x in q[:-1]], q[-1] + 1],
              lambda: getattr(a, name)(*args))
    return {'events': h.events}


def mixed_case(rng, n=6):
    h = Hist(rng, True)
    g = qgen.Gen(rng, mixed=True, bits=True, maxq=3)
    a = g.diagram(dom=rng.choice([Id().dom, Id().dom, qubit, bit]), n=rng.randint(1, n))
    h.add('given', [], a, d=qgen.diagram(a, g.data))
    if len(a.dom) + len(a.cod) <= 3:
        b = g.diagram(dom=a.cod, n=rng.randint(1, 3))
        if len(b.dom) + len(b.cod) <= 4:
            h.add('given', [], b, d=qgen.diagram(b, g.data))
            h.add('then', [1, 2], lambda: a >> b)
            if small(a, b, 4):
                h.add('tensor', [1, 2], lambda: a @ b)
    if all(x['b']['k'] != 'bit' for x in h.events[0]['d']['layers']):
        h.add('dagger', [1], lambda: a.dagger())
    h.add('rotate', [1, 1], lambda: a.rotate(1))
    return {'events': h.events}


def circuital_case(rng, n=7):
    """Sentence-like circuits: to_circuital keeps the doubled meaning."""
    h = Hist(rng, True)
    mixed = rng.random() < .4
    g = qgen.Gen(rng, mixed=mixed, maxq=rng.choice([3, 3, 4]), multi=rng.random() < .5,
                 maxdist=3, rot_z=False, bitswap=False)
    a = g.diagram(dom=rng.choice([Id().dom, Id().dom, qubit]), n=rng.randint(2, n))
    h.add('given', [], a, d=qgen.diagram(a, g.data))

    def conv():
        r = to_circuital(a)
        return r
    ok, r = attempt(conv)
    e = {'op': 'circuital', 'a': [1, 1]}
    if ok:
        e.update(result(r, True, force=True))
        e['circuital'] = bool(r.is_circuital)
    else:
        e.update({'ok': False, 'mixed': True, 'err': r})
    h.events.append(e)
    return {'events': h.events}


def ctor_case(rng, mixed):
    h = Hist(rng, mixed)
    for n in range(0, 4):
        for m in range(0, 4):
            if n + m <= (4 if mixed else 6):
                h.add('spider', [n, m], lambda: generate_spider(qubit, n, m))
    for n in (1, 2, 3) if not mixed else (1,):
        h.add('cups', [n], lambda: Diagram.cups(qubit ** n, qubit ** n))
        h.add('caps', [n], lambda: Diagram.caps(qubit ** n, qubit ** n))
        h.add('cups', [n], lambda: generate_cup(qubit ** n, qubit ** n))
        h.add('caps', [n], lambda: generate_cap(qubit ** n, qubit ** n))
    return {'events': h.events}


def nested_shapes(width):
    """Every nesting of controls (as a list of distances, inner first) over one
    target that needs exactly `width` wires."""
    def go(left):
        if left == 0:
            yield []
        for d in range(1, left + 1):
            for rest in go(left - d):
                yield [d, *rest]
                yield [-d, *rest]
    return go(width - 1)


def nested_case(rng, dists, kets=False):
    """One nested controlled gate, alone, its dagger and its conjugate."""
    h = Hist(rng, False)
    g = qgen.Gen(rng, multi=False).one_qubit() if rng.random() < .7 else Q.X
    for d in dists:
        g = Controlled(g, d)
    a = Diagram(dom=g.dom, cod=g.dom, layers=[Layer(left=qubit ** 0, box=g, right=qubit ** 0)])
    if kets:
        n = len(g.dom)
        pre = Id()
        for _ in range(n):
            pre = pre @ Ket(rng.randint(0, 1))
        had = [i for i in range(n) if rng.random() < .6]
        for i in had:
            pre = pre >> Id(qubit ** i) @ Q.H @ Id(qubit ** (n - i - 1))
        a = pre >> a
    h.add('given', [], a, d=qgen.diagram(a, {}))
    h.add('dagger', [1], lambda: a.dagger())
    h.add('rotate', [1, 1], lambda: a.rotate(1))
    return {'events': h.events}


def run(chk):
    rng = chk.rng
    chk.model('P06Model', cfg='P06ModelThorough.cfg' if chk.thorough else None)
    chk.conform('P06Trace', [ctor_case(rng, False), ctor_case(rng, True)], label='constructors')
    nest = [nested_case(rng, s) for w in ((2, 3, 4) if chk.thorough else (2, 3)) for s in nested_shapes(w)]
    nest += [nested_case(rng, s, kets=True) for w in (2, 3, 4, 5) for s in nested_shapes(w)]
    chk.conform('P06Trace', nest, label='every nesting of controls')
    chk.conform('P06Trace', [pure_case(rng) for _ in range(chk.n(420, 5000))], label='pure circuits')
    chk.conform('P06Trace', [mixed_case(rng) for _ in range(chk.n(300, 3500))], label='mixed circuits')
    chk.conform('P06Trace', [circuital_case(rng) for _ in range(chk.n(380, 5000))], label='circuital form')


if __name__ == '__main__':
    main('P06', run)

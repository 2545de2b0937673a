"""P09: conversion to and from discopy, judged by spec/P09Trace.tla (form), P05Trace.tla and P06Trace.tla (meaning)."""
import sys
sys.path.insert(0, '/verif')
import numpy as np
import p05, p06
from discopy import quantum as dq, tensor as dt
from discopy.grammar import pregroup as dg
from lambeq.backend import grammar as G, quantum as Q, tensor as T
from lambeq.backend.converters.discopy import from_discopy, to_discopy
from lambeq.backend.symbol import Symbol
from vlib import gen, proj, qgen
from vlib.core import attempt, main


def num(x):
    if isinstance(x, Symbol):
        return f'{x.name}*{complex(x.scale):.6f}'
    return f'{complex(x) + 0:.6f}'


def data(x):
    return [] if x is None else [num(v) for v in np.asarray(x, dtype=object).reshape(-1)]


# ------------------------------------------------------------- the two sides
def g_there(d):
    def ty(t):
        return [[o.name, int(o.z)] for o in t.inside]

    def box(b):
        kind = ('cap' if isinstance(b, dg.Cap) else 'cup' if isinstance(b, dg.Cup) else 'swap' if isinstance(b, dg.Swap) else
                'spider' if isinstance(b, dg.Spider) else 'word' if isinstance(b, dg.Word) and not (b.cod if b.is_dagger else b.dom) else 'box')
        n = {'cap': 'CAP', 'cup': 'CUP', 'swap': 'SWAP', 'spider': 'SPIDER'}.get(kind, str(b.name))
        return {'k': kind, 'n': n, 'd': ty(b.dom), 'c': ty(b.cod), 'z': int(b.z or 0) if kind in ('box', 'word') else 0,
                'dg': int(bool(b.is_dagger)) if kind in ('box', 'word') else 0}
    return {'dom': ty(d.dom), 'cod': ty(d.cod), 'layers': [{'L': ty(a), 'b': box(b), 'R': ty(z)} for a, b, z in d]}


def g_here(d):
    out = proj.diagram(d)
    for y in out['layers']:
        y['b'].pop('f')
        if y['b']['k'] not in ('box', 'word'):
            y['b']['z'] = y['b']['dg'] = 0
    return out


def t_there(d):
    def ty(t):
        return [int(x) for x in t.inside if x != 1]

    def box(b):
        k = ('cup' if isinstance(b, dt.Cup) else 'cap' if isinstance(b, dt.Cap) else
             'swap' if isinstance(b, dt.Swap) else 'spider' if isinstance(b, dt.Spider) else 'box')
        o = {'k': k, 'd': ty(b.dom), 'c': ty(b.cod)}
        return {**o, 'n': b.name, 'z': int(b.z or 0), 'dg': int(bool(b.is_dagger)), 'v': data(b.data)} if k == 'box' else o
    return {'dom': ty(d.dom), 'cod': ty(d.cod), 'layers': [{'L': ty(a), 'b': box(b), 'R': ty(z)} for a, b, z in d]}


def t_here(d):
    def box(b):
        k = ('cup' if isinstance(b, T.Cup) else 'cap' if isinstance(b, T.Cap) else
             'swap' if isinstance(b, T.Swap) else 'spider' if isinstance(b, T.Spider) else 'box')
        o = {'k': k, 'd': p05.dims(b.dom), 'c': p05.dims(b.cod)}
        if k != 'box':
            return o
        dgr = isinstance(b, T.Daggered)
        u = b.box if dgr else b
        return {**o, 'n': u.name, 'z': int(u.z), 'dg': int(dgr), 'v': data(u.data)}
    return {'dom': p05.dims(d.dom), 'cod': p05.dims(d.cod),
            'layers': [{'L': p05.dims(y.left), 'b': box(y.box), 'R': p05.dims(y.right)} for y in d.layers]}


def q_there(d):
    def ty(t):
        assert all(len(t[i:i + 1]) == 1 for i in range(len(t)))
        return ['q' if t[i:i + 1] == dq.qubit else 'b' if t[i:i + 1] == dq.bit else '?' for i in range(len(t))]

    def box(b):
        o = {'d': ty(b.dom), 'c': ty(b.cod)}
        if isinstance(b, dq.Controlled):
            return {**o, 'k': 'ctrl', 'dist': int(b.distance), 'f': [box(b.controlled)]}
        if isinstance(b, dq.gates.Sqrt):
            return {**o, 'k': 'sqrt', 'v': num(b.data)}
        if isinstance(b, dq.gates.Scalar):
            return {**o, 'k': 'mscalar' if b.is_mixed else 'scalar', 'v': num(b.data)}
        if isinstance(b, (dq.Rx, dq.Ry, dq.Rz)):
            return {**o, 'k': 'rot', 'g': type(b).__name__, 'v': num(b.phase)}
        if isinstance(b, (dq.Ket, dq.Bra)):
            return {**o, 'k': type(b).__name__.lower(), 'n': list(map(int, b.bitstring))}
        for cls in (dq.Measure, dq.Encode, dq.Discard):
            if isinstance(b, cls):
                flags = [f for f in ('destructive', 'override_bits', 'constructive', 'reset_bits')
                         if getattr(b, f, None) not in (None, f in ('destructive', 'constructive'))]
                return {**o, 'k': '-'.join([cls.__name__.lower()] + flags)}
        if b == dq.SWAP or isinstance(b, dq.Swap):
            return {**o, 'k': 'swap'}
        if b.is_dagger:
            return {**o, 'k': 'dag', 'f': [box(b.dagger())]}
        return {**o, 'k': 'gate', 'g': b.name, 'z': int(b.z or 0)}
    return {'dom': ty(d.dom), 'cod': ty(d.cod), 'layers': [{'L': ty(a), 'b': box(b), 'R': ty(z)} for a, b, z in d]}


def q_here(d):
    def box(b):
        o = {'d': qgen.w(b.dom), 'c': qgen.w(b.cod)}
        if isinstance(b, Q.Controlled):
            return {**o, 'k': 'ctrl', 'dist': int(b.distance), 'f': [box(b.controlled)]}
        if isinstance(b, Q.Daggered):
            return {**o, 'k': 'dag', 'f': [box(b.box)]}
        if isinstance(b, Q.Sqrt):
            return {**o, 'k': 'sqrt', 'v': num(b.data)}
        if isinstance(b, Q.Scalar):
            return {**o, 'k': 'scalar', 'v': num(b.data)}
        if isinstance(b, Q.Rotation):
            return {**o, 'k': 'rot', 'g': type(b).__name__, 'v': num(b.phase)}
        if isinstance(b, (Q.Ket, Q.Bra)):
            return {**o, 'k': type(b).__name__.lower(), 'n': [int(b.bit)]}
        for cls in (Q.Measure, Q.Encode, Q.Discard, Q.Swap):
            if isinstance(b, cls):
                return {**o, 'k': cls.__name__.lower()}
        return {**o, 'k': 'gate', 'g': b.name, 'z': int(b.z or 0)}
    return {'dom': qgen.w(d.dom), 'cod': qgen.w(d.cod),
            'layers': [{'L': qgen.w(y.left), 'b': box(y.box), 'R': qgen.w(y.right)} for y in d.layers]}


HERE, THERE = {'grammar': g_here, 'tensor': t_here, 'quantum': q_here}, {'grammar': g_there, 'tensor': t_there, 'quantum': q_there}
KIND = {'grammar': (G.Diagram, dg.Diagram), 'tensor': (T.Diagram, dt.Diagram), 'quantum': (Q.Diagram, dq.Circuit)}


def convert(cat, rng, d):
    return attempt(d.to_discopy if rng.random() < .4 else lambda: to_discopy(d))


def back(cat, rng, y):
    return attempt((lambda: KIND[cat][0].from_discopy(y)) if rng.random() < .4 else lambda: from_discopy(y))


def case(cat, rng, d, e=None):
    """There and back; with another diagram: composites too."""
    here, there, ev = HERE[cat], THERE[cat], []
    x = here(d)
    ok, y = convert(cat, rng, d)
    ev.append({'op': 'there', 'ok': ok and isinstance(y, KIND[cat][1]), 'd': there(y) if ok else 0, 'err': '' if ok else str(y)})
    if ok:
        ok, z = back(cat, rng, y)
        ev.append({'op': 'back', 'ok': ok, 'd': here(z) if ok else 0, 'err': '' if ok else str(z), 'eq': bool(ok and z == d),
                   'kind': ok and isinstance(z, KIND[cat][0]) and all(type(a.box) is type(b.box) for a, b in zip(z.layers, d.layers))})
        ok2, w = attempt(lambda: to_discopy(z))
        ev.append({'op': 'there', 'ok': ok2, 'd': there(w) if ok2 else 0, 'err': '' if ok2 else str(w)})
        if e is not None:
            # what discopy makes of the converted parts
            ok, y2 = convert(cat, rng, e)
            if ok and d.cod == e.dom:
                ok, w = attempt(lambda: y >> y2)
                ev.append({'op': 'then', 'ok': ok, 'y': here(e), 'd': there(w) if ok else 0})
                ok, w = back(cat, rng, w) if ok else (ok, w)
                ev.append({'op': 'then', 'ok': ok, 'y': here(e), 'd': here(w) if ok else 0})
            if ok:
                ok, w = attempt(lambda: y @ y2)
                ev.append({'op': 'beside', 'ok': ok, 'y': here(e), 'd': there(w) if ok else 0})
    return {'cat': cat, 'd': x, 'events': ev}


def native(cat, rng, d):
    """What discopy itself makes of a converted diagram, brought to lambeq."""
    here, there = HERE[cat], THERE[cat]
    ok, y = convert(cat, rng, d)
    if not ok:
        return None

    def build():
        w = y
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < .35:
                w = w[::-1] if rng.random() < .5 else w.dagger()
            elif r < .6 and cat != 'quantum':
                w = w.l if rng.random() < .5 else w.r
            elif r < .75:
                i = rng.randint(0, len(w))
                w = w[:i] if rng.random() < .5 else w[i:]
            elif len(w.dom) + len(w.cod) < 8:
                w = w @ w if rng.random() < .5 else w >> w.dagger()
        return w
    ok, w = attempt(build)
    if not ok:     # not discopy's either
        return None
    ok, x = attempt(lambda: there(w))
    if not ok:
        return None
    ok, z = back(cat, rng, w)
    if not ok and z == 'NotImplementedError':     # lambeq has no such box
        return None
    ev = [{'op': 'back', 'ok': ok, 'd': here(z) if ok else 0, 'err': '' if ok else str(z), 'eq': True, 'kind': ok and isinstance(z, KIND[cat][0])}]
    if ok:
        ok, v = attempt(lambda: to_discopy(z))
        ev.append({'op': 'there', 'ok': ok, 'd': there(v) if ok else 0, 'err': '' if ok else str(v)})
    return {'cat': cat + '-native', 'd': x, 'events': ev}


def foreign(rng):
    """A circuit made with discopy, of boxes that lambeq may not have."""
    q, b, g = dq.qubit, dq.bit, dq.gates
    made = [lambda: dq.Measure(1, destructive=False), lambda: dq.Measure(1, destructive=False, override_bits=True), lambda: dq.Measure(),
            lambda: dq.Measure(2), lambda: dq.Encode(), lambda: dq.Encode(1, constructive=False), lambda: dq.Encode(1, reset_bits=True),
            lambda: dq.Encode(2), lambda: dq.Discard(), lambda: dq.Discard(2), lambda: dq.Discard(b), lambda: dq.MixedState(1),
            lambda: g.Copy(), lambda: g.Match(), lambda: g.Bits(1, 0), lambda: g.Bits(1).dagger(), lambda: g.CU1(.25), lambda: g.CRz(.25),
            lambda: g.QuantumGate('V', q, q, [0, 1, 1, 0]), lambda: g.ClassicalGate('W', b, b, [0, 1, 1, 0]), lambda: g.MixedScalar(.5),
            lambda: g.Scalar(.5), lambda: dq.Circuit.swap(q, b), lambda: dq.Circuit.swap(b, b), lambda: dq.Circuit.swap(q, q),
            lambda: g.Ket(1), lambda: g.Bra(0), lambda: g.H, lambda: g.CX, lambda: g.Controlled(g.Y, distance=-2)]

    def build():
        w = dq.Circuit.id(q ** rng.randint(0, 2) @ b ** rng.randint(0, 2))
        for _ in range(rng.randint(1, 4)):
            for _ in range(30):
                x = rng.choice(made)()
                x = x.dagger() if rng.random() < .15 else x
                fits = [i for i in range(len(w.cod) - len(x.dom) + 1) if w.cod[i:i + len(x.dom)] == x.dom]
                if fits and len(w.cod) - len(x.dom) + len(x.cod) <= 6:
                    i = rng.choice(fits)
                    w = w >> w.cod[:i] @ x @ w.cod[i + len(x.dom):]
                    break
        return w
    ok, w = attempt(build)
    if not ok or not len(w):
        return None
    ok, x = attempt(lambda: q_there(w))
    if not ok:
        return None
    ok, z = back('quantum', rng, w)
    return {'cat': 'quantum-foreign', 'd': x, 'events': [{'op': 'foreign', 'ok': ok, 'd': q_here(z) if ok else 0, 'kind': ok and isinstance(z, Q.Diagram)}]}


def kets(rng):
    """A circuit made with discopy, with states of several qubits."""
    g = dq.gates

    def build():
        n = rng.randint(1, 3)
        bits = [rng.randint(0, 1) for _ in range(n)]
        w = dq.Circuit.id(dq.qubit ** rng.randint(0, 1)) @ g.Ket(*bits) @ dq.Circuit.id(dq.qubit ** rng.randint(0, 1))
        for _ in range(rng.randint(0, 4)):
            x = rng.choice([g.H, g.X, g.S, g.T, g.CX, g.CZ, g.Controlled(g.Z, distance=-1), g.Bra(rng.randint(0, 1)), g.Ket(rng.randint(0, 1), rng.randint(0, 1)),
                            g.Bra(rng.randint(0, 1), rng.randint(0, 1)), dq.SWAP, g.Rz(.25), g.Rx(.5), g.Ry(.75), g.sqrt(2)])
            i = rng.randint(0, max(0, len(w.cod) - len(x.dom)))
            if i + len(x.dom) <= len(w.cod) and len(w.cod) - len(x.dom) + len(x.cod) <= 5:
                w = w >> w.cod[:i] @ x @ w.cod[i + len(x.dom):]
        return w.dagger() if rng.random() < .3 else w
    w = build()
    ok, z = back('quantum', rng, w)
    arr = np.asarray(w.eval().array)
    p = {'dom': ['q'] * len(w.dom), 'cod': ['q'] * len(w.cod)}
    return {'odd': False, 'events': [{'op': 'given', 'a': [1, 1], 'mixed': False, 'd': qgen.diagram(z) if ok else 0, 'ok': ok, **p,
                                      'twos': all(s == 2 for s in arr.shape), 'noval': False, 'v': [qgen.fixed(x) for x in arr.reshape(-1)]}]}


# ------------------------------------------------------- diagrams to convert
def convertible(cat, d):
    if cat == 'grammar':
        return not any(isinstance(y.box, (G.Frame, G.DaggeredFrame)) for y in d.layers)
    if cat == 'quantum':
        return all(not isinstance(y.box, (Q.MixedState, Q.Bit)) and not (isinstance(y.box, Q.Swap) and y.box.dom != Q.qubit ** 2) for y in d.layers)
    return True


def make(cat, rng, dom=None, **k):
    while True:
        if cat == 'grammar':
            d = gen.diagram(rng, dom=dom, n_layers=rng.randint(0, 6))
        elif cat == 'tensor':
            d = p05.rand_diagram(rng, TAB, dom=dom, n=rng.randint(0, 5))
        else:
            m = rng.random() < .4
            d = qgen.Gen(rng, mixed=m, bits=m and rng.random() < .6, units=False, **k).diagram(dom=dom, n=rng.randint(0, 7))
        if convertible(cat, d):
            return d


def symbolic(rng):
    """A circuit with symbols in its rotations."""
    d = make('quantum', rng)
    layers = []
    for y in d.layers:
        b = y.box
        if isinstance(b, Q.Rotation):
            b = type(b)(Symbol(rng.choice('abc')) * rng.choice([1, -1, .5, 2.25]))
        elif isinstance(b, Q.Controlled) and isinstance(b.controlled, Q.Rotation):
            b = Q.Controlled(type(b.controlled)(Symbol(rng.choice('abc')) * rng.choice([1, -.5])), b.distance)
        layers.append(Q.Layer(left=y.left, box=b, right=y.right))
    return Q.Diagram(dom=d.dom, cod=d.cod, layers=layers)


def odd(b):
    """Does the box stand for a conjugate?"""
    while isinstance(b, (Q.Controlled, Q.Daggered, T.Daggered)):
        b = b.controlled if isinstance(b, Q.Controlled) else b.box
    return bool((getattr(b, 'z', 0) or 0) % 2)


def discopys_own(b):
    """discopy forgets the dagger of a controlled gate when it evaluates it."""
    inside = False
    while isinstance(b, (Q.Controlled, Q.Daggered)):
        if isinstance(b, Q.Daggered) and inside:
            return True
        if isinstance(b, Q.Controlled):
            inside, b = True, b.controlled
        else:
            b = b.box
    return False


def t_meaning(rng, d):
    def go():
        y = to_discopy(d)
        v = y.eval().array
        r = np.asarray(v)
        return {'dom': t_there(y)['dom'], 'cod': t_there(y)['cod'], 'shape': [int(s) for s in r.shape],
                'v': [[round(complex(x).real), round(complex(x).imag)] if abs(x - complex(round(complex(x).real), round(complex(x).imag))) < 1e-4 else [str(x), ''] for x in r.reshape(-1)]}
    ok, r = attempt(go)
    return {'odd': any(odd(y.box) for y in d.layers), 'events': [{'op': 'given', 'a': [], 'be': '', 'd': TAB.proj(d), 'ok': ok, **(r if ok else {'err': str(r)})}]}


def q_meaning(rng, d, native=None):
    mixed = d.is_mixed

    def go():
        y = to_discopy(d)
        arr = np.asarray(y.eval().array)
        p = q_there(y)
        return {'dom': p['dom'], 'cod': p['cod'], 'twos': all(s == 2 for s in arr.shape), 'noval': False, 'v': [qgen.fixed(x) for x in arr.reshape(-1)]}
    ok, r = attempt(go)
    return {'odd': any(odd(y.box) for y in d.layers),
            'events': [{'op': 'given', 'a': [1, 1], 'mixed': mixed, 'd': qgen.diagram(d), 'ok': ok, **(r if ok else {'err': str(r)})}]}


def keyf(case, clauses):
    if case['odd'] and set(clauses) <= {'given:value', 'given*:value'}:
        return 'meaning:conjugated-box'


def run(chk):
    global TAB
    rng = chk.rng
    TAB = p05.BoxTable(rng)
    for cat, n in (('grammar', chk.n(500, 6000)), ('tensor', chk.n(350, 4000)), ('quantum', chk.n(500, 6000))):
        cases = []
        for i in range(n):
            d = make(cat, rng)
            e = make(cat, rng, dom=d.cod if rng.random() < .7 else None) if rng.random() < .5 else None
            cases.append(case(cat, rng, d, e))
        if cat == 'quantum':
            cases += [case(cat, rng, symbolic(rng)) for _ in range(chk.n(100, 1000))]
        chk.conform('P09Trace', cases, label=cat)
        own = [native(cat, rng, make(cat, rng)) for _ in range(chk.n(250, 3000))]
        chk.conform('P09Trace', [x for x in own if x], label=cat + ' made by discopy')
    odd_ones = [foreign(rng) for _ in range(chk.n(400, 4000))]
    chk.conform('P09Trace', [x for x in odd_ones if x], label='circuits of discopy with other boxes')
    chk.conform('P06Trace', [kets(rng) for _ in range(chk.n(150, 2000))], label='circuits of discopy with states of several qubits', keyf=keyf)
    chk.conform('P05Trace', [t_meaning(rng, make('tensor', rng)) for _ in range(chk.n(250, 3000))], label='tensors evaluated by discopy', keyf=keyf)
    ds = []
    while len(ds) < chk.n(350, 4000):
        d = make('quantum', rng)
        # (and the dagger of any gate when the circuit is mixed)
        if not any(discopys_own(y.box) or d.is_mixed and isinstance(y.box, Q.Daggered) for y in d.layers) and len(d.dom) + len(d.cod) <= (4 if d.is_mixed else 7):
            ds.append(d)
    chk.conform('P06Trace', [q_meaning(rng, d) for d in ds], label='circuits evaluated by discopy', keyf=keyf)


if __name__ == '__main__':
    main('P09', run)

"""P08: conversion to PennyLane, judged by spec/P08Trace.tla."""
import sys
sys.path.insert(0, '/verif')
import contextlib, io
import numpy as np
import torch
from lambeq.backend import quantum as Q
from lambeq.backend.quantum import Bra, Controlled, Discard, Id, Ket, Rotation, Rx, Ry, Rz, qubit
from lambeq.backend.symbol import Symbol
from lambeq.training.pennylane_model import PennyLaneModel
from vlib.core import attempt, main
from vlib import qgen

NAMES = ['a', 'b', 'c__1']


class Gen(qgen.Gen):
    """Mostly circuits PennyLane can express, with or without symbols."""

    def __init__(self, rng, sym, **k):
        super().__init__(rng, **k)
        self.sym = sym
        self.wild = rng.random() < .15

    def rot(self):
        r = self.rng
        cls = r.choice([Rx, Ry, Rz])
        if self.sym and r.random() < .8:
            s = Symbol(r.choice(NAMES))
            x = r.random()
            if x < .4:
                s = s * r.choice([-1, 2, .5, 3])
            g = cls(s)
        else:
            g = cls(r.randrange(-5, 9) / 4)
        if r.random() < .2:
            g = g.dagger()
        return g

    def one_qubit(self):
        r = self.rng
        if r.random() < (.7 if self.sym else .45):
            return self.rot()
        return super().one_qubit()

    def controlled(self, width):
        if self.wild:
            return super().controlled(width)
        r = self.rng
        g = r.choice([self.rot, self.rot, lambda: Q.X, lambda: Q.X, lambda: Q.Y, lambda: Q.Z])()
        g = Controlled(g, r.randint(1, min(width - 1, self.maxdist)) * r.choice([1, -1]))
        if r.random() < .2:
            g = g.dagger()
        return g


def arr(x):
    return [qgen.fixed(v) for v in np.asarray(x.detach().numpy()).reshape(-1)]


def quiet(fn):
    with contextlib.redirect_stderr(io.StringIO()):
        return fn()


def circuit(rng, sym, mixed, wild=True):
    style = rng.random()
    g = Gen(rng, sym, maxq=4 if style < .5 else 3, maxdist=3, rots=False, rot_z=rng.random() < .3, bitswap=False)
    g.wild &= wild
    if style < .5:     # already in circuital layout
        n = rng.randint(1, 4)
        d = Ket(*[rng.randint(0, 1) for _ in range(n)]).to_diagram()
        for _ in range(rng.randint(1, 7)):
            b, i = g.step(d.cod)
            if isinstance(b, (Ket, Bra, Q.Ket)):
                continue
            d = d >> d.cod[:i] @ b @ d.cod[i + len(b.dom):]
    else:
        d = g.diagram(dom=rng.choice([Id().dom, qubit, qubit ** 2]), n=rng.randint(2, 9))
    for _ in range(rng.randint(0, 2) + mixed):
        if len(d.cod):
            i = rng.randrange(len(d.cod))
            b = Discard() if mixed and rng.random() < .6 else Bra(rng.randint(0, 1))
            d = d >> d.cod[:i] @ b @ d.cod[i + 1:]
    if mixed and not d.is_mixed and len(d.cod):
        d = d >> Discard() @ d.cod[1:]
    return d


def values(rng):
    return {n: rng.randrange(-4, 9) / 2 for n in NAMES}   # halves: half of one is on the grid


def case(rng):
    sym = rng.random() < .5
    mixed = rng.random() < .25
    d = circuit(rng, sym, mixed)
    events = []
    before = repr(d)
    kinds = ['mixed'] if d.is_mixed else ['state', 'probs']
    for kind in kinds:
        p = None
        ok, p = attempt(lambda: quiet(lambda: d.to_pennylane(probabilities=kind == 'probs')))
        for _ in range(rng.choice([1, 1, 2]) if sym else 1):    # the same circuit, other values
            env = values(rng)
            qgen.ENV.clear(), qgen.ENV.update(env)
            e = {'op': kind, 'd': qgen.diagram(d, None), 'ok': ok}
            if ok:
                def run():
                    if sym:
                        p.initialise_concrete_params({Symbol(n): torch.tensor(v, dtype=torch.float64) for n, v in env.items()})
                    return arr(p.eval())
                ok2, v = attempt(run)
                e.update({'v': v} if ok2 else {'ok': False, 'err': v})
            else:
                e['err'] = p
            events.append(e)
    if repr(d) != before:
        events[-1].update(ok=False, err='operand changed')
    return {'events': events}


def model_case(rng):
    """A model over several circuits with shared symbols, predicted in any order."""
    ds = []
    m = rng.choice([1, 1, 2])
    for _ in range(rng.randint(1, 4)):
        for _ in range(50):
            d = circuit(rng, True, False, wild=False)
            if len(d.cod) != m:
                if len(d.cod) < m:
                    continue
                d = d >> d.cod[:m] @ Id().tensor(*[Bra(rng.randint(0, 1)).to_diagram() for _ in d.cod[m:]])
            if d.free_symbols and len(d.dom) == 0:
                break
        else:
            continue
        ds.append(d)
    if not ds:
        return None
    env = values(rng)
    qgen.ENV.clear(), qgen.ENV.update(env)
    kind = rng.choice(['probs', 'state'])
    norm = rng.random() < .6
    order = [rng.randrange(len(ds)) for _ in range(rng.randint(1, 4))]

    def run():
        model = PennyLaneModel.from_diagrams(ds, probabilities=kind == 'probs', normalize=norm)
        model.initialise_weights()
        with torch.no_grad():
            for s, wt in zip(model.symbols, model.weights):
                wt.copy_(torch.tensor(env[s.name]))
        out = quiet(lambda: model([ds[i] for i in order]))
        return [o for o in out.detach().numpy()]
    ok, out = attempt(run)
    events = []
    for j, i in enumerate(order):
        e = {'op': ('model' if norm else '') + kind, 'd': qgen.diagram(ds[i]), 'ok': ok}
        if ok:
            k = 1e4 if norm else 1e5
            v = np.asarray(out[j]).reshape(-1)
            lim = 2e4
            e['v'] = [[round(x.real * k), round(x.imag * k)] if abs(x) < lim else [2 ** 30, 0] for x in map(complex, v)]
        else:
            e['err'] = out
        events.append(e)
    return {'events': events}


def run(chk):
    rng = chk.rng
    chk.model('P06Model')
    chk.conform('P08Trace', [case(rng) for _ in range(chk.n(1200, 8000))], label='conversions')
    cs = [x for x in (model_case(rng) for _ in range(chk.n(300, 2000))) if x]
    chk.conform('P08Trace', cs, label='models')


if __name__ == '__main__':
    main('P08', run)

"""P21: backend selection, judged by spec/P21Trace.tla; the courses come from
spec/P21Model.tla, random deeper ones are added."""
import contextlib, io, json, sys
sys.path.insert(0, '/verif')
import numpy as np
import torch
from lambeq import (Dataset, NumpyModel, PytorchModel, PytorchQuantumModel, PytorchTrainer, QuantumTrainer,
                    SPSAOptimizer)
from lambeq.backend import numerical_backend as nb
from lambeq.backend.quantum import H, Ket, Rx, X
from lambeq.backend.symbol import Symbol
from lambeq.backend.tensor import Box, Dim
from vlib.core import attempt, main, MachineryError


class Unwind(Exception):
    pass


def kind(x):
    m = type(x).__module__.split('.')[0]
    return {'torch': 'pytorch', 'jaxlib': 'jax'}.get(m, m)


T = Box('f', Dim(1), Dim(2), [1., 2.]) >> Box('g', Dim(2), Dim(2), [0., 1., 2., 3.])
SYM = Symbol('p')
CIRC = Ket(0) >> Rx(SYM)
TSYM = Box('w', Dim(1), Dim(2), Symbol('w', directed_cod=2)).to_diagram()


OBS = {
    'name': lambda: nb.get_backend().name,
    'implicit': lambda: enter_implicit(),
    'item': lambda: kind(Dataset(['a', 'b'], [[0, 1], [1, 0]])[0][1]),
    'slice': lambda: kind(Dataset(['a', 'b'], [[0, 1], [1, 0]])[:1][1]),
    'batch': lambda: kind(next(iter(Dataset(['a', 'b'], [[0, 1], [1, 0]], batch_size=1)))[1]),
    'lastbatch': lambda: kind(list(Dataset(['a', 'b', 'c'], [[0, 1], [1, 0], [1, 1]], batch_size=2))[-1][1]),
    'tensor': lambda: kind(T.eval()),
    'empty': lambda: kind((Box('s', Dim(1), Dim(1), [2])).to_diagram().id(Dim(1)).eval()),
    'array': lambda: kind(Box('f', Dim(2), Dim(2), [1, 2, 3, 4]).array),
    'circuit': lambda: kind(np_free()),
    'gate': lambda: kind(H.array),
}


def enter_implicit():
    with nb.backend() as b:
        return b.name


def np_free():
    return (Ket(0) >> H >> X).to_tn()[0][1].tensor


def models():
    """Things that select a backend themselves (or run in the current one)."""
    seen = []

    class Probe(np.ndarray):
        pass

    def loss(y, t):
        seen.append(nb.get_backend().name)
        return float(np.sum((np.asarray(y) - np.asarray(t)) ** 2))

    def tloss(y, t):
        seen.append(nb.get_backend().name)
        return torch.nn.functional.mse_loss(y, t)

    def spy(model):
        old = model._normalise_vector
        model._normalise_vector = lambda v: (seen.append(nb.get_backend().name), old(v))[1]
        return model

    def boom(*_):
        seen.append(nb.get_backend().name)
        raise Unwind()

    def compiled(fail):
        m = NumpyModel.from_diagrams([CIRC], use_jit=True)
        m.initialise_weights()
        if fail:
            m._normalise_vector = boom
        else:
            spy(m)
        m([CIRC])

    def plain(fail):
        m = NumpyModel.from_diagrams([CIRC])
        m.weights = np.array([.3])
        if fail:
            m._normalise_vector = boom
        else:
            spy(m)
        m([CIRC])

    def pt(fail):
        m = PytorchModel.from_diagrams([TSYM])
        m.initialise_weights()
        old = m._tn_contract
        m._tn_contract = boom if fail else (lambda *a: (seen.append(nb.get_backend().name), old(*a))[1])
        m([TSYM])

    def ptq(fail):
        m = PytorchQuantumModel.from_diagrams([CIRC])
        m.initialise_weights()
        if fail:
            m._normalise_vector = boom
        else:
            spy(m)
        m([CIRC])

    def fit(fail):
        m = NumpyModel.from_diagrams([CIRC])
        t = QuantumTrainer(m, boom if fail else loss, 1, SPSAOptimizer, {'a': .1, 'c': .1, 'A': 1},
                           evaluate_functions={'e': loss}, verbose='suppress', seed=0)
        ds = Dataset([CIRC, CIRC], [[0, 1], [1, 0]], batch_size=1)
        t.fit(ds, ds)

    def tfit(fail):
        m = PytorchModel.from_diagrams([TSYM])
        t = PytorchTrainer(m, boom if fail else tloss, 1, evaluate_functions={'e': tloss}, verbose='suppress', seed=0)
        ds = Dataset([TSYM, TSYM], [[0., 1.], [1., 0.]], batch_size=1)
        t.fit(ds, ds)
    return seen, {'compiled': compiled, 'torch': pt, 'torchquantum': ptq, 'fit': fit, 'torchfit': tfit, 'plain': plain}


def inside(rng, cur):
    seen, ms = models()
    pick = [m for m in ms if m != 'plain' or cur == 'numpy']
    who = rng.choice(pick)
    fail = rng.random() < .5
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        ok, r = attempt(lambda: ms[who](fail), limit=60)
    return {'op': 'inside', 'who': who, 'ok': ok, 'expect': not fail, 'err': '' if ok else str(r), 'during': list(seen)}


def play(rng, ops, full):
    """The course with real `with` blocks."""
    events, todo = [], list(ops)

    def observe(e):
        what = list(OBS) if full else ['name'] + rng.sample(list(OBS), 2)
        e['obs'] = []
        for w in what:
            ok, g = attempt(OBS[w])
            e['obs'].append({'what': w, 'got': g if ok else 'error ' + str(g)})
        events.append(e)

    def block():
        while todo:
            o = todo.pop(0)
            if o['op'] == 'enter':
                e = {'op': 'enter', 'b': o['b'], 'ok': True}
                left = None
                try:
                    with (nb.backend(o['b']) if o['b'] else nb.backend()) as b:
                        e['given'] = b.name
                        observe(e)
                        left = block()
                except Unwind as x:
                    n = x.args[0] - 1
                    if n:
                        raise Unwind(n) from None
                    left = ('raise', x.args[1] if len(x.args) > 1 else 1)
                    observe({'op': 'raise', 'n': pending.pop()})
                    left = None
                except (KeyError, ImportError):
                    if 'given' in e:
                        raise
                    e['ok'] = False
                    observe(e)
                if left == 'exit':
                    observe({'op': 'exit'})
                elif left == 'end':
                    return 'end'
            elif o['op'] == 'exit':
                return 'exit'
            elif o['op'] == 'raise':
                pending.append(o['n'])
                raise Unwind(o['n'])
            elif o['op'] == 'set':
                nb.set_backend(o['b'])
                observe({'op': 'set', 'b': o['b']})
            elif o['op'] == 'model':
                observe(inside(rng, nb.get_backend().name))
        return 'end'
    pending = []
    nb.set_backend('numpy')
    block()
    # the blocks left open by the course are now left
    e = {'op': 'raise', 'n': 0}
    d = 1
    for x in events:
        d += 1 if x['op'] == 'enter' and x['ok'] else -1 if x['op'] == 'exit' else -x['n'] if x['op'] == 'raise' else 0
    e['n'] = d - 1
    observe(e)
    nb.set_backend('numpy')
    return {'events': events}


def course(rng, n):
    ops, d = [], 1
    for _ in range(n):
        k = rng.choice(['enter', 'enter', 'enter', 'exit', 'exit', 'raise', 'set', 'model', 'enter'])
        if k == 'enter':
            b = rng.choice(['numpy', 'jax', 'pytorch', '', 'jax', 'pytorch', 'nosuch'])
            ops.append({'op': k, 'b': b, 'n': 0})
            d += b != 'nosuch'
        elif k == 'exit' and d > 1:
            ops.append({'op': k, 'b': '', 'n': 1})
            d -= 1
        elif k == 'raise' and d > 1:
            m = rng.randint(1, d - 1)
            ops.append({'op': k, 'b': '', 'n': m})
            d -= m
        elif k in ('set', 'model'):
            ops.append({'op': k, 'b': rng.choice(['numpy', 'jax', 'pytorch']), 'n': 0})
    return ops


def run(chk):
    rng = chk.rng
    res = chk.model('P21Model', cfg='P21ModelThorough.cfg' if chk.thorough else 'P21Model.cfg')
    runs = [json.loads(x.split('|', 1)[1].replace('\\"', '"')) for x in res.prints if x.startswith('@@RUN|')]
    if len(runs) < 2000:
        raise MachineryError('the model produced too few courses')
    runs.sort(key=lambda j: json.dumps(j, sort_keys=True))
    light = [r for r in runs if not any(o['op'] == 'model' for o in r)]
    heavy = [r for r in runs if any(o['op'] == 'model' for o in r)]
    pick = rng.sample(light, min(len(light), chk.n(1500, 20000))) + rng.sample(heavy, min(len(heavy), chk.n(150, 1500)))
    chk.conform('P21Trace', [play(rng, r, False) for r in pick], label='courses of the model')
    chk.conform('P21Trace', [play(rng, course(rng, rng.randint(5, 14)), True) for _ in range(chk.n(120, 1500))],
                label='deeper courses')


if __name__ == '__main__':
    main('P21', run)

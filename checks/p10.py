"""P10: symbols, substitution and models, judged by spec/P10{S,Q,T}Trace.tla."""
import contextlib, copy, io, json, os, sys
sys.path.insert(0, '/verif')
from pathlib import Path
import numpy as np
import torch
from lambeq import NumpyModel, PytorchModel, PytorchQuantumModel, TketModel
from lambeq.training.pennylane_model import PennyLaneModel
from lambeq.backend import quantum as Q
from lambeq.backend import tensor as T
from lambeq.backend.quantum import Bra, Controlled, Discard, Id, Ket, Measure, Rotation, Rx, Ry, Rz, qubit
from lambeq.backend.symbol import Symbol
from lambeq.training.tn_path_optimizer import CachedTnPathOptimizer, TnPathOptimizer
from vlib.core import attempt, main
from vlib import qgen
import p05
import p08

NAMES = ['a', 'b', 'c__1', 'A', 'a10', 'b__0']


# ---- projections -----------------------------------------------------------
def sym(s):
    return {'s': s.name, 'd': int(s.directed_dom), 'c': int(s.directed_cod), 'm': round(s.scale * 1000)}


def datum(x):
    if isinstance(x, Symbol):
        return sym(x)
    if x is None:
        return {'s': '', 'v': []}
    a = np.asarray(x, dtype=object)
    if any(isinstance(y, Symbol) for y in a.reshape(-1)):
        return {'s': '[]', 'of': [datum(y) for y in a.reshape(-1)]}
    out = []
    for y in a.reshape(-1):
        y = complex(y)
        out += [round(y.real * 1000)] + ([round(y.imag * 1000)] if y.imag else [])
    return {'s': '', 'v': out}


def occs(d):
    """The data of the pieces, of nested pieces too."""
    out = []

    def go(b):
        out.append(datum(b.data))
        for k in ('controlled', 'box'):
            if k in vars(b):
                go(vars(b)[k])
    for y in d.layers:
        go(y.box)
    return out


def skel(d):
    """Everything but data (and the names that spell it)."""
    def go(b):
        nm = '' if isinstance(b, (Rotation, Controlled)) else b.name
        s = f'{type(b).__name__}:{nm}:{b.dom!r}:{b.cod!r}:{b.z}:{getattr(b, "distance", "") if isinstance(b, Controlled) else ""}'
        if isinstance(b, Q.Box):
            s += f':{b.is_mixed}'
        for k in ('controlled', 'box'):
            if k in vars(b):
                s += '(' + go(vars(b)[k]) + ')'
        return s
    return f'{d.dom!r}->{d.cod!r} ' + ' '.join(f'{y.left!r}|{go(y.box)}|{y.right!r}' for y in d.layers)


def full(d):
    return skel(d) + json.dumps(occs(d))


def free(d):
    return [sym(s) for s in d.free_symbols]


# ---- symbolic cases --------------------------------------------------------
class SGen(p08.Gen):
    def __init__(self, rng):
        super().__init__(rng, True, maxq=4, maxdist=3, units=False, rots=True, rot_z=rng.random() < .5)
        self.wild = True

    def rot(self):
        g = super().rot()
        if self.rng.random() < .15:
            g = g.rotate(1)
        return g

    def step(self, cur):
        r = self.rng
        if r.random() < .08 and len(cur) and all(o == qubit for o in cur):
            i = r.randrange(len(cur))
            b = Q.Box('U', qubit, qubit, Symbol('U', 2, 2) * r.choice([1, 1, 2]), is_mixed=r.random() < .15)
            x = r.random()
            return (b if x < .5 else b.dagger() if x < .75 else b.rotate(1) if x < .9 else Controlled(b)), i if x < .9 else -1
        return super().step(cur)

    def diagram(self, **k):
        for _ in range(40):
            try:
                return super().diagram(**k)
            except Exception:      # noqa: BLE001 - a piece that does not fit here
                continue
        return super().diagram(**k)


class TGen(p05.BoxTable):
    """Boxes whose data are symbols, also shared ones."""

    def __init__(self, rng, arrays=False, even=True):
        super().__init__(rng)
        self.arrays, self.syms, self.even = arrays, {}, even

    def make(self, dom, cod):
        r = self.rng
        a, b = p05.total(dom), p05.total(cod)
        if r.random() < .25:
            self.n += 1
            name = f'k{self.n}'
            vals = [(r.choice([0, 1, -1, 2]), 0) for _ in range(a * b)]
            self.data[name] = [list(v) for v in vals]
            return T.Box(name, dom, cod, np.array([v[0] for v in vals], dtype=np.float32).reshape(p05.dims(dom) + p05.dims(cod)))
        if self.arrays and r.random() < .5:
            arr = np.empty(a * b, dtype=object)
            for i in range(a * b):
                arr[i] = Symbol(r.choice(NAMES)) * r.choice([1, 2]) if r.random() < .7 else 1.
            return T.Box('arr', dom, cod, arr)
        same = [s for s in self.syms.values() if (s.directed_dom, s.directed_cod) == (a, b)]
        if same and r.random() < .6:
            s = r.choice(same)
        else:
            name = r.choice(NAMES)
            if not self.even:
                name += str(r.randint(0, 9))
            s = Symbol(name, a, b)
            self.syms[name, a, b] = s
        if r.random() < .2:
            s = s * r.choice([-1, 2, .5, 3])
        return T.Box(s.name + r.choice(['', '', '1']), dom, cod, s)


def pick_values(rng, s):
    return [rng.randint(-9, 9) for _ in range(s['d'] * s['c'])]


def sym_case(rng):
    quantum = rng.random() < .55
    arrays = not quantum and rng.random() < .12
    events = []
    for _ in range(rng.randint(1, 3)):
        if quantum:
            d = SGen(rng).diagram(n=rng.randint(1, 8))
        else:
            d = p05.rand_diagram(rng, TGen(rng, arrays), n=rng.randint(1, 6))
        occ, sk = occs(d), skel(d)
        arr = any(x['s'] == '[]' for x in occ)
        ok, f = attempt(lambda: free(d))
        events.append({'op': 'free', 'ok': ok, 'occ': occ, 'got': f if ok else []})
        for _ in range(rng.randint(1, 3)):
            want = {}

            def collect(x):
                if x['s'] == '[]':
                    for y in x['of']:
                        collect(y)
                elif x['s']:
                    want[x['s'], x['d'], x['c']] = {**x, 'm': 1000}
            for x in occ:
                collect(x)
            syms = list(want.values())
            if rng.random() < .35:
                syms = [s for s in syms if rng.random() < .6]
            if rng.random() < .3:
                syms.append({'s': 'other', 'd': 1, 'c': 1, 'm': 1000})
            rng.shuffle(syms)
            vals = [pick_values(rng, s) for s in syms]

            def go():
                args = [np.array(v, dtype=float) if s['d'] * s['c'] > 1 else float(v[0]) for s, v in zip(syms, vals)]
                obj = d if rng.random() < .8 or len(d.layers) != 1 else d
                r = obj.lambdify(*[Symbol(s['s'], s['d'], s['c']) for s in syms])(*args)
                return {'rocc': occs(r), 'rskel': skel(r), 'rfree': free(r), 'occ2': occs(d), 'skel2': skel(d)}
            ok, r = attempt(go)
            events.append({'op': 'lambdify', 'ok': ok, 'occ': occ, 'skel': sk, 'syms': syms, 'arr': arr,
                           'vals': vals, **(r if ok else {'err': r})})
    for _ in range(2):
        mk = lambda: Symbol(rng.choice(NAMES[:2]), rng.choice([1, 2]), rng.choice([1, 2]), rng.choice([1.0, 1.0, 2.0, -.5]))
        x, y, k = mk(), mk(), rng.choice([-2, 3, 0, 1])

        def go():
            return {'x': sym(x), 'y': sym(y), 'k': k, 'mul': sym(x * k), 'rmul': sym(k * x), 'neg': sym(-x), 'un': sym(x.unscaled),
                    'size': int(x.size), 'same': bool(x == y), 'hash': hash(x) == hash(y)}
        ok, r = attempt(go)
        events.append({'op': 'map', 'ok': ok, **(r if ok else {'err': r})})
    return {'events': events}


# ---- models of circuits ----------------------------------------------------
AER = None


def aer():
    global AER
    if AER is None:
        from pytket.extensions.qiskit import AerBackend
        AER = AerBackend()
    b = AER
    return {'backend': b, 'compilation': b.default_compilation_pass(0), 'shots': 4096}


def quiet(fn):
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return fn()


def path_optimizer(rng, scratch):
    x = rng.random()
    if x < .3:
        return None
    if x < .5:
        return TnPathOptimizer()
    if x < .65:
        return CachedTnPathOptimizer(save_checkpoints=True)
    p = Path(scratch) / rng.choice(['p.pkl', 'q.pkl', 'deep/er/r.pkl'])
    if rng.random() < .3 and not p.exists():
        p.parent.mkdir(parents=True, exist_ok=True)
        p.touch()
    return CachedTnPathOptimizer('auto', save_file=p, save_checkpoints=rng.random() < .5)


class QModel:
    """One way of handling the circuit models."""

    def __init__(self, kind, rng, scratch):
        self.kind, self.rng, self.scratch = kind, rng, scratch
        self.n = 0

    def args(self):
        k = self.kind
        return (dict(use_jit=True) if k == 'jit' else dict(backend_config=aer()) if k == 'tket'
                else dict(tn_path_optimizer=path_optimizer(self.rng, self.scratch)) if k in ('torch', 'tensor') else {})

    CLS = {'numpy': NumpyModel, 'jit': NumpyModel, 'torch': PytorchQuantumModel, 'tket': TketModel,
           'pennylane': PennyLaneModel, 'tensor': PytorchModel}

    def make(self, ds):
        m = self.CLS[self.kind].from_diagrams(ds, **self.args())
        if self.kind == 'tket':
            m.rng = np.random.default_rng(self.rng.randrange(10 ** 9))
        return m

    def blank(self):
        return self.CLS[self.kind](**self.args())

    def set(self, m, vals):
        """vals: per symbol the numbers as the model reads them"""
        k = self.kind
        if k in ('numpy', 'jit', 'tket'):
            m.weights = np.array(vals)
        elif k == 'torch':
            if self.rng.random() < .5 and len(m.weights) == len(vals):
                with torch.no_grad():
                    m.weights.copy_(torch.tensor(vals))
            else:
                m.weights = torch.nn.Parameter(torch.tensor(vals))
        else:
            with torch.no_grad():
                for w, v in zip(m.weights, vals):
                    w.copy_(torch.tensor(v))

    def path(self):
        self.n += 1
        return os.path.join(self.scratch, f'{self.kind}{id(self)}-{self.n}.lt')


def ids(m):
    return [s.name for s in m.symbols]


def tids(m):
    return [f'{s.name}/{s.directed_dom}/{s.directed_cod}' for s in m.symbols]


class History:
    def __init__(self, drv, ds, idf, names, to_weight, out):
        self.drv, self.ds, self.idf, self.names = drv, ds, idf, names
        self.to_weight, self.out, self.events, self.m = to_weight, out, [], None

    def rank(self, m):
        order = sorted({s.name for s in m.symbols})
        return [order.index(s.name) for s in m.symbols]

    def make(self, idx):
        def go():
            self.m = self.drv.make([self.ds[i] for i in idx])
            return {'syms': self.idf(self.m), 'rank': self.rank(self.m), 'from': [i + 1 for i in idx]}
        ok, r = attempt(lambda: quiet(go), limit=60)
        self.events.append({'op': 'make', 'ok': ok, **(r if ok else {'err': r})})
        return ok

    def init(self):
        def go():
            self.m.initialise_weights()
            return {'sizes': [int(np.asarray(w.detach() if hasattr(w, 'detach') else w).size) for w in self.m.weights],
                    'want': [int(s.size) for s in self.m.symbols]}
        ok, r = attempt(go)
        self.events.append({'op': 'init', 'ok': ok, **(r if ok else {'err': r})})
        return ok

    def weights(self, ws=None):
        w = [(ws or {}).get(k, None) or self.to_weight(k) for k in self.idf(self.m)]
        ok, r = attempt(lambda: self.drv.set(self.m, [self.real(x) for x in w]))
        self.events.append({'op': 'weights', 'ok': ok, 'w': w, **({} if ok else {'err': r})})

    def real(self, x):
        return x / 4 if isinstance(x, int) else [float(y) for y in x]

    def load(self, idx, fresh=False, ws=None):
        def go():
            o = self.drv.make([self.ds[i] for i in idx])
            o.initialise_weights()
            w = [(ws or {}).get(k, None) or self.to_weight(k) for k in self.idf(o)]
            self.drv.set(o, [self.real(x) for x in w])
            p = self.drv.path()
            o.save(p)
            if fresh:
                self.m = self.drv.blank()
            self.m.load(p)
            return {'saved': self.idf(o), 'syms': self.idf(self.m), 'w': w}
        ok, r = attempt(lambda: quiet(go), limit=60)
        self.events.append({'op': 'load', 'ok': ok, **(r if ok else {'err': r})})

    def predict(self, idx, call=True):
        batch = [self.ds[i] if self.drv.rng.random() < .7 else copy.deepcopy(self.ds[i]) for i in idx]

        def go():
            r = quiet(lambda: self.m(batch) if call else self.m.get_diagram_output(batch))
            r = r.detach().numpy() if hasattr(r, 'detach') else np.asarray(r)
            return [self.out(x) for x in r]
        ok, r = attempt(go, limit=120)
        self.events.append({'op': 'predict', 'batch': [i + 1 for i in idx], 'ok': ok, 'err': '' if ok else r,
                            'out': r if ok else [], 'skel': [full(d) for d in self.ds]})


def prob(x):
    return [round(float(v) * 1e4) if abs(float(v)) < 1e4 else 10 ** 8 for v in np.asarray(x).reshape(-1)]


def tensor_out(x):
    return {'shape': [int(s) for s in x.shape], 'v': [round(float(v)) if abs(v - round(float(v))) < .01 else 10 ** 8 for v in x.reshape(-1)]}


class Circ(p08.Gen):
    """Circuits that use pieces again."""

    def __init__(self, rng, names, **k):
        super().__init__(rng, True, **k)
        self.names, self.seen = names, []

    def controlled(self, width):
        for _ in range(20):
            b = super().controlled(width)
            if not self.noY or b.controlled.name != 'Y':
                return b
        return Controlled(Q.X)

    def rot(self):
        r = self.rng
        if r.random() > .8 and self.const:
            g = r.choice([Rx, Ry, Rz])(r.randrange(-5, 9) / 4)
        else:
            s = Symbol(r.choice(self.names))
            if r.random() < .4:
                s = s * r.choice([-1, 2, .5, 3])
            g = r.choice([Rx, Ry, Rz])(s)
        return g.dagger() if r.random() < .2 else g

    def step(self, cur):
        b, i = super().step(cur)
        fit = [x for x in self.seen if len(x.dom) <= len(cur) and x.dom == cur[:len(x.dom)]]
        if fit and self.rng.random() < .2:
            return self.rng.choice(fit), 0
        if len(b.dom) == len(b.cod) and len(b.dom):
            self.seen.append(b)
        return b, i


def twin(rng, d):
    """A circuit that differs in one respect."""
    spots = list(range(len(d.layers)))
    rng.shuffle(spots)
    for i in spots:
        y = d.layers[i]
        b = y.box
        n = None
        if rng.random() < .5 and b.dom == b.cod and set(y.left @ b.dom @ y.right) == {qubit}:     # the same gate elsewhere
            if len(y.left) and (not len(y.right) or rng.random() < .5):
                k = len(y.left) - 1
                z = Q.Layer(y.left[:k], b, y.left[k:] @ y.right)
            elif len(y.right):
                z = Q.Layer(y.left @ y.right[:1], b, y.right[1:])
            else:
                continue
            return Q.Diagram(d.dom, d.cod, d.layers[:i] + [z] + d.layers[i + 1:])
        if isinstance(b, Controlled):
            n = Controlled(b.controlled, -b.distance)
        elif isinstance(b, Rotation):
            n = rng.choice([lambda: type(b)(-b.data), lambda: rng.choice([Rx, Ry, Rz])(b.data)])()
        elif isinstance(b, Bra):
            n = Bra(1 - b.bit)
        elif type(b) is Ket and rng.random() < .3:
            n = Ket(1 - b.bit)
        elif b.name in ('Y', 'S', 'T') and not isinstance(b, Q.Daggered):
            n = b.rotate(1)
        if n is not None and n.dom == b.dom and n.cod == b.cod:
            y = d.layers[i]
            return Q.Diagram(d.dom, d.cod, d.layers[:i] + [Q.Layer(y.left, n, y.right)] + d.layers[i + 1:])
    return d


def circuits(rng, kind, m, n, mixed, names=NAMES):
    ds = []
    tame = kind in ('pennylane', 'tket')
    while len(ds) < n:
        if ds and rng.random() < (.7 if kind == 'jit' else .4):
            ds.append(twin(rng, rng.choice(ds)))
            continue
        g = Circ(rng, names[:rng.randint(1, len(names))], maxq=3 if kind in ('jit', 'tket') else 4, maxdist=2, rots=False,
                 rot_z=not tame and rng.random() < .3, scalars=not tame or kind == 'pennylane', bitswap=False)
        g.wild = not tame
        g.const, g.noY = True, kind == 'tket'
        for _ in range(60):
            k = max(1, m)
            d = Ket(*[rng.randint(0, 1) for _ in range(rng.randint(k, k + 1))]).to_diagram()
            if rng.random() < .5:
                d = d >> Id().tensor(*[rng.choice([Q.H, Rx(Symbol(rng.choice(names)))]) for _ in d.cod])
            for _ in range(rng.randint(2, 6)):
                b, i = g.step(d.cod)
                d = d >> d.cod[:i] @ b @ d.cod[i + len(b.dom):] if i >= 0 else d
            while len(d.cod) > m:
                i = rng.randrange(len(d.cod))
                b = Discard() if mixed and rng.random() < .6 else Bra(rng.randint(0, 1))
                d = d >> d.cod[:i] @ b @ d.cod[i + 1:]
            if mixed:
                d = d >> Id().tensor(*[Measure() for _ in d.cod]) if m else d
                if not d.is_mixed:
                    continue
            if len(d.cod) == m and len(d.dom) == 0 and any(x['s'] for x in occs(d)):
                break
        else:
            return ds
        ds.append(d)
    return ds


def proj(d, kind, mixed):
    qgen.SYMBOLIC = True
    try:
        p = qgen.diagram(d)
    finally:
        qgen.SYMBOLIC = False
    return {'dia': p, 'names': sorted({x['s'] for x in occs(d) if x['s']}), 'skel': full(d),
            'mixed': mixed, 'freq': kind == 'tket', 'nan': kind in ('pennylane', 'jit', 'torch')}


def even(rng):
    return lambda k: 2 * rng.randint(-4, 6)


def q_case(rng, kind, scratch):
    mixed = kind in ('numpy', 'jit', 'torch') and rng.random() < .25
    m = rng.choice([1, 1, 2]) if kind in ('pennylane', 'tket') or rng.random() < .85 else 0
    ds = circuits(rng, kind, m, rng.randint(1, 4), mixed)
    if not ds:
        return None
    h = History(QModel(kind, rng, scratch), ds, ids, None, even(rng), prob)
    events(rng, h, kind)
    return {'cls': kind, 'ds': [proj(d, kind, mixed) for d in ds], 'events': h.events}


def events(rng, h, kind):
    n = len(h.ds)
    every = list(range(n))
    if not h.make([rng.choice(every) for _ in range(n)] if rng.random() < .2 and kind != 'pennylane' else every):
        return
    h.init() if kind in ('pennylane', 'tensor', 'torch') or rng.random() < .3 else None
    h.weights()
    for _ in range(rng.randint(2, 5) if kind != 'jit' else rng.randint(1, 3)):
        x = rng.random()
        if x < .2:
            h.weights()
        elif x < .35:
            h.load(every if kind == 'pennylane' else [rng.choice(every) for _ in range(rng.randint(1, n))], fresh=rng.random() < .4)
        else:
            h.predict([rng.choice(every) for _ in range(rng.randint(1, 4))], call=rng.random() < .5)


# ---- models of tensor diagrams ----------------------------------------------
class TTab(TGen):
    def proj_box(self, b):
        inner = b
        while isinstance(inner, T.Daggered):
            inner = inner.box
        if isinstance(inner.data, Symbol):
            self.data[inner.name] = []
        o = super().proj_box(b)
        y = o['k'] == 'box' and isinstance(inner.data, Symbol)
        s = inner.data
        return {**o, 's': f'{s.name}/{s.directed_dom}/{s.directed_cod}' if y else '', 'm': round(s.scale * 2) if y else 0}


def t_case(rng, scratch):
    tab = TTab(rng, even=rng.random() < .9)
    ds, shape = [], None
    n = rng.randint(1, 4)
    for _ in range(200):
        if len(ds) == n:
            break
        d = p05.rand_diagram(rng, tab, n=rng.randint(1, 5), cap=12, dom=rng.choice([T.Dim(1), T.Dim(2)]) if rng.random() < .8 else None)
        if not any(x['s'] for x in occs(d)) or shape not in (None, (d.dom, d.cod)):
            continue
        shape = (d.dom, d.cod)
        ds.append(d)
        if len(ds) < n and rng.random() < .5:
            ds.append(ds[-1].dagger() if d.dom == d.cod and rng.random() < .5 else d)
    if not ds:
        return None
    w = lambda k: [2 * rng.choice([0, 1, -1, 1, 2]) for _ in range(int(k.split('/')[1]) * int(k.split('/')[2]))]
    h = History(QModel('tensor', rng, scratch), ds, tids, None, w, tensor_out)
    events(rng, h, 'tensor')
    names = lambda d: sorted({f"{x['s']}/{x['d']}/{x['c']}" for x in occs(d) if x['s']})
    return {'cls': 'tensor', 'ds': [{'dia': tab.proj(d), 'names': names(d), 'skel': full(d)} for d in ds], 'events': h.events}


# ---- every short history ------------------------------------------------------
def replays(chk, runs, kind, n, scratch):
    rng = chk.rng
    runs = runs if n >= len(runs) else rng.sample(runs, n)
    a, b, c = Symbol('a'), Symbol('b'), Symbol('c')
    ds = [Ket(0, 0) >> Rx(a) @ Ry(b) >> Controlled(Q.X) >> Bra(0) @ Id(qubit), Ket(0) >> Ry(b * 2) >> Rz(-a) >> Rx(b),
          Ket(0) >> Rx(c), Ket(0, 0) >> Ry(b) @ Rx(c) >> Controlled(Rx(b), -1) >> Id(qubit) @ Bra(0)]
    other = [Ket(0) >> Rx(Symbol('0')), *ds[2:]]
    ds += other[:1]
    out = []
    for hist in runs:
        h = History(QModel(kind, rng, scratch), ds, ids, None, even(rng), prob)
        if h.make([0, 1, 2, 3]):
            h.init()
            h.weights({'a': 2, 'b': 4, 'c': 6})
            for o in hist:
                x = o['arg']
                if o['op'] == 'predict':
                    h.predict([i - 1 for i in x])
                elif o['op'] == 'weights':
                    h.weights(dict(zip(ids(h.m), [2 * y for y in x])))
                else:
                    h.load([0, 1, 2, 3] if x == [1] or kind == 'pennylane' else [4, 2, 3], ws={'a': 4, 'b': 2, 'c': 6, '0': 4})
        out.append({'cls': kind, 'ds': [proj(d, kind, False) for d in ds], 'events': h.events})
    return out


def run(chk):
    rng = chk.rng
    s = os.path.join(chk.scratch, 'models')
    os.makedirs(s)
    r = chk.model('P10Model', cfg='P10ModelThorough.cfg' if chk.thorough else 'P10Model.cfg')
    runs = [json.loads(x.split('|', 1)[1].replace('\\"', '"')) for x in r.prints if x.startswith('@@RUN')]
    chk.conform('P10STrace', [sym_case(rng) for _ in range(chk.n(700, 8000))], label='symbols')
    cs = []
    for kind, n, k in (('numpy', 60, 500), ('jit', 12, 60), ('torch', 40, 400), ('pennylane', 25, 200), ('tket', 8, 60)):
        cs += replays(chk, runs, kind, chk.n(n, k), s)
    for kind, n, k in (('numpy', 150, 1500), ('jit', 40, 300), ('torch', 100, 800), ('pennylane', 60, 500), ('tket', 15, 120)):
        cs += [x for x in (q_case(rng, kind, s) for _ in range(chk.n(n, k))) if x]
    chk.conform('P10QTrace', cs, label='circuit-models')
    cs = [x for x in (t_case(rng, s) for _ in range(chk.n(250, 3000))) if x]
    chk.conform('P10TTrace', cs, label='tensor-models')


if __name__ == '__main__':
    main('P10', run)

"""P20: gradient-free optimisers, judged by spec/P20Trace.tla.  Losses come
from spec/P20Model.tla (every course of a short Nelder-Mead run), from scripts
and from functions of the weights."""
import copy, json, math, pickle, sys, warnings
sys.path.insert(0, '/verif')
import numpy as np
from lambeq import NelderMeadOptimizer, RotosolveOptimizer, SPSAOptimizer
from lambeq.backend.quantum import Rx, Diagram as QD
from lambeq.backend.symbol import Symbol
from lambeq.backend.tensor import Box as TBox, Dim
from lambeq.training.model import Model
from vlib.core import attempt, main, MachineryError

warnings.simplefilter('ignore')
NAMES = ['w%d' % i for i in range(6)]


class Stub(Model):
    """Records the weights it is asked to predict with."""

    def __init__(self, n, w):
        super().__init__()
        self.symbols = [Symbol(x) for x in NAMES[:n]]
        self.weights = np.array(w, dtype=float)
        self.asked = []

    def from_checkpoint(self):
        pass

    def initialise_weights(self):
        pass

    def get_diagram_output(self, x):
        return self.forward(x)

    def _make_checkpoint(self):
        pass

    def _load_checkpoint(self, c):
        pass

    def forward(self, x):
        self.asked.append(np.array(self.weights, dtype=float))
        return x


def diag(rng, syms):
    """A diagram with these parameters."""
    d = Rx(.25)
    d = d.to_diagram() if hasattr(d, 'to_diagram') else d
    for x in syms:
        y = Symbol(x) if rng.random() < .7 else Symbol(x, scale=2.)
        d = d >> Rx(y)
    return d


def batch(rng, present):
    ds = [diag(rng, [x]) for x in present]
    if len(present) > 1 and rng.random() < .5:
        ds = [diag(rng, present[:-1]), diag(rng, present[1:])]
    rng.shuffle(ds)
    r = rng.random()
    if r < .2:
        return [tuple(ds)]
    if r < .3:
        return [ds[:1], ds[1:]]
    return ds


class Run:
    def __init__(self, cfg, cls, hyp, rng, losses, mk=None):
        self.cfg, self.cls, self.hyp, self.rng, self.losses = cfg, cls, hyp, rng, losses
        self.sc, self.n = cfg['sc'], cfg['n']
        self.fsc = 10 ** 6 if cfg['kind'] == 'nm' else self.sc
        self.ev, self.mk = [], mk or {}
        self.bounds = None if not cfg.get('lo') else [[a / self.sc, b / self.sc] for a, b in zip(cfg['lo'], cfg['hi'])]
        self.model = Stub(self.n, [x / self.sc for x in cfg['w']])
        self.seen = []
        ok, v = attempt(self.make, hyp)
        self.dead = not ok
        if ok:
            self.opt = v
        else:
            self.ev.append({'op': 'error', 'err': 'refused:' + v})

    def make(self, hyp):
        return self.cls(model=self.model, loss_fn=self.loss, hyperparams=hyp,
                        bounds=self.bounds if self.rng.random() < .5 or self.bounds is None else np.array(self.bounds))

    def loss(self, y, t):
        w = self.model.asked[-1]
        v = self.losses(w)
        self.seen.append((w, v))
        return v if self.rng.random() < .8 or self.cfg['kind'] != 'nm' else np.array([v])

    def fix(self, x, sc=None):
        v = float(x)
        return 777777777 if v != v else round(max(-1000., min(1000., v)) * (sc or self.sc))

    def vec(self, w):
        return [self.fix(x) for x in w]

    def do(self, op):
        if self.dead:
            return
        ok, v = attempt(getattr(self, op))
        if not ok:
            self.ev.append({'op': 'error', 'err': op + ':' + v})
            self.dead = True

    def backward(self):
        names = NAMES[:self.n]
        present = [x for x in names if self.rng.random() < self.cfg.get('share', 1)] or [self.rng.choice(names)]
        self.seen = []
        loss = self.opt.backward((batch(self.rng, present), np.array([0])))
        self.ev.append({'op': 'backward', 'present': [int(x in present) for x in names], 'loss': self.fix(loss, self.fsc),
                        'evals': [{'x': self.vec(w), 'f': self.fix(f, self.fsc)} for w, f in self.seen], 'w': self.vec(self.model.weights)})

    def step(self):
        self.opt.step()
        self.ev.append({'op': 'step', 'w': self.vec(self.model.weights)})

    def zero(self):
        self.opt.zero_grad()
        self.ev.append({'op': 'zero'})

    def save(self):
        s = self.opt.state_dict()
        how = self.rng.choice(['live', 'pickle'])
        self.saved = (s if how == 'live' else pickle.loads(pickle.dumps(s)), np.array(self.model.weights))
        self.ev.append({'op': 'save'})

    def load(self):
        self.model = Stub(self.n, [float(self.rng.random()) for _ in range(self.n)])
        self.opt = self.make(self.hyp if self.rng.random() < .4 else self.mk)
        self.model.weights = np.array(self.saved[1])
        self.opt.load_state_dict(self.saved[0])
        self.ev.append({'op': 'load', 'w': self.vec(self.model.weights)})

    def case(self):
        return {'cfg': {**self.cfg, 'kind': self.cfg['kind']}, 'events': self.ev + [{'op': 'end'}]}


def script(rng, run_sc, hi=2.4, ties=False):
    def f(w):
        return rng.randint(0, 3) / 2 if ties else rng.randint(0, int(hi * 1000)) / 1000
    return f


def bowl(rng, n):
    t = [rng.uniform(-1, 1) for _ in range(n)]
    k = [rng.uniform(.2, 2) for _ in range(n)]
    return lambda w: round(float(min(2.4, sum(a * (x - b) ** 2 for a, b, x in zip(k, t, w)))), 6)


def plan(rng, steps, zero=True):
    out = []
    saved = False
    for _ in range(steps):
        out.append('backward')
        r = rng.random()
        if zero and r < .06:
            out.append('zero')
            continue
        if zero and r < .12:
            out.append('backward')
        out.append('step')
        if rng.random() < .08:
            out.append('save')
            saved = True
        if saved and rng.random() < .12:
            out.append('load')
    return out


def bounds(rng, n, sc, w, wild=.2):
    lo, hi = [], []
    for x in w:
        r = rng.random()
        if r < .15:
            a = b = x
        else:
            a, b = x - rng.randint(0, sc // 2), x + rng.randint(1, sc // 2)
            if rng.random() < wild:
                a, b = x + sc // 10, x + sc // 2
        lo.append(a), hi.append(b)
    return {'lo': lo, 'hi': hi}


def spsa(rng):
    n, sc = rng.randint(1, 4), 10000
    w = [rng.randint(-20000, 20000) for _ in range(n)]
    cfg = {'kind': 'spsa', 'sc': sc, 'n': n, 'a': rng.randint(3000, 20000), 'c': rng.choice([600, 2000, 12000, 30000]),
           'A4': rng.randint(0, 40), 'lo': [], 'hi': [], 'w': w, 'share': rng.choice([1, .5, .7])}
    if rng.random() < .4:
        cfg.update(bounds(rng, n, sc, w))
    hyp = {'a': cfg['a'] / 1e5, 'c': cfg['c'] / 1e4, 'A': cfg['A4'] / 4}
    r = Run(cfg, SPSAOptimizer, hyp, rng, bowl(rng, n) if rng.random() < .3 else script(rng, sc),
            {'a': .5, 'c': .01, 'A': 7})
    for op in plan(rng, rng.choice([6, 12, 45])):
        r.do(op)
    return r.case()


def nm(rng):
    n, sc = rng.choice([1, 2, 2, 3, 4]), 100000
    w = [rng.choice([0, rng.randint(-2 * sc, 2 * sc)]) for _ in range(n)]
    cfg = {'kind': 'nm', 'sc': sc, 'n': n, 'adaptive': rng.random() < .5 and n > 1, 'lo': [], 'hi': [], 'w': w, 'simplex': [],
           'xatol': 10, 'fatol': 100, 'small': 25, 'share': rng.choice([1, .6])}
    hyp = {'adaptive': cfg['adaptive']}
    if rng.random() < .3:
        cfg['xatol'], cfg['fatol'] = rng.choice([(20000, 1000000), (200000, 600000), (100, 2400000)])
        hyp.update(xatol=cfg['xatol'] / sc, fatol=cfg['fatol'] / 10 ** 6)
    if rng.random() < .4:
        cfg['simplex'] = [[rng.randint(-sc, sc) for _ in range(n)] for _ in range(n + 1)]
        hyp['initial_simplex'] = [[x / sc for x in v] for v in cfg['simplex']]
    if rng.random() < .4:
        cfg.update(bounds(rng, n, sc, w))
    if rng.random() < .1:
        hyp['maxfev'] = rng.randint(1, 20)
    f = bowl(rng, n) if rng.random() < .4 else script(rng, sc, ties=rng.random() < .3)
    other = {'adaptive': n > 1 and not cfg['adaptive']}
    r = Run(cfg, NelderMeadOptimizer, hyp, rng, f, other)
    for op in plan(rng, rng.choice([3, 8, 14]), zero=False):
        r.do(op)
    return r.case()


def from_model(rng, j):
    """A Nelder-Mead run of the model."""
    sc = 1000
    cfgs = [dict(n=1, adaptive=False, lo=[], hi=[], w=[2000], simplex=[]),
            dict(n=1, adaptive=True, lo=[0], hi=[2050], w=[2000], simplex=[]),
            dict(n=2, adaptive=False, lo=[], hi=[], w=[2000, 4000], simplex=[[0, 0], [1000, 0], [0, 1000]]),
            dict(n=2, adaptive=True, lo=[-500, -500], hi=[1200, 1200], w=[600, 600], simplex=[[0, 0], [1000, 0], [0, 1000]])]
    cfg = {'kind': 'nm', 'sc': 100000, 'xatol': 0, 'fatol': 0, 'small': 25, **cfgs[j['k'] - 1]}
    for f in ('lo', 'hi', 'w'):
        cfg[f] = [x * 100 for x in cfg[f]]
    cfg['simplex'] = [[x * 100 for x in v] for v in cfg['simplex']]
    hyp = {'adaptive': cfg['adaptive'], 'xatol': 0, 'fatol': 0}
    if cfg['simplex']:
        hyp['initial_simplex'] = [[x / 100000 for x in v] for v in cfg['simplex']]
    vals = iter(j['f'])
    r = Run(cfg, NelderMeadOptimizer, hyp, rng, lambda w: float(next(vals, 9)))
    sweeps = (3 if cfg['n'] == 1 else 2) if j['deep'] else (2 if cfg['n'] == 1 else 1)
    for _ in range(sweeps):
        r.do('backward')
        r.do('step')
    return r.case()


def roto(rng):
    n, sc = rng.randint(1, 4), 100000
    t = [rng.randrange(0, sc, 625) for _ in range(n)]
    w = [x + rng.choice([0, 1, 2, 3]) * sc // 4 + rng.choice([0, 0, sc, -sc]) for x in t]
    terms = []
    for _ in range(rng.randint(1, 4)):
        on = sorted(rng.sample(range(n), rng.randint(1, min(n, 3))))
        terms.append({'k': rng.choice([-3, -2, -1, 1, 2, 3]), 'on': [i + 1 for i in on]})
    if rng.random() < .6:                          # every coordinate also alone: every step is determined
        terms += [{'k': rng.choice([-29, -13, 17, 31]), 'on': [i + 1]} for i in range(n) if rng.random() < .9]
        if n > 1 and rng.random() < .5:
            w = [rng.randint(-sc, sc) for _ in range(n)]
            terms = [x for x in terms if len(x['on']) == 1]
    cfg = {'kind': 'roto', 'sc': sc, 'n': n, 't': t, 'w': w, 'terms': terms}

    def loss(v):
        used = {i for x in terms for i in x['on']}
        cos = {i: math.cos(2 * math.pi * (v[i - 1] - t[i - 1] / sc)) for i in used}
        return float(sum(x['k'] * math.prod(cos[i] for i in x['on']) for x in terms))
    r = Run(cfg, RotosolveOptimizer, None, rng, loss)
    for _ in range(rng.randint(1, 3)):
        r.do('backward')
        r.do('step')
    c = r.case()
    for e in c['events']:
        e.pop('evals', None), e.pop('present', None)
    return c


def known(case, clauses):
    # the listed finding: the simplex step sets the weights of parameters that do
    # not occur in the batch to zero, and nothing else is wrong
    return 'nm:step:absent-set-to-zero' if clauses == ['nm:step:absent-set-to-zero'] else None


def run(chk):
    rng = chk.rng
    res = chk.model('P20Model', cfg='P20ModelThorough.cfg' if chk.thorough else 'P20Model.cfg')
    runs = [json.loads(x.split('|', 1)[1].replace('\\"', '"')) for x in res.prints if x.startswith('@@RUN|')]
    if len(runs) < 300:
        raise MachineryError('the model produced too few runs')
    runs.sort(key=lambda j: json.dumps(j, sort_keys=True))
    for j in runs:
        j['deep'] = chk.thorough
    pick = rng.sample(runs, min(len(runs), chk.n(900, 20000)))
    chk.conform('P20Trace', [from_model(rng, j) for j in pick], label='courses of the model', keyf=known)
    chk.conform('P20Trace', [nm(rng) for _ in range(chk.n(500, 8000))], label='simplex runs', keyf=known)
    chk.conform('P20Trace', [spsa(rng) for _ in range(chk.n(400, 6000))], label='perturbation runs')
    chk.conform('P20Trace', [roto(rng) for _ in range(chk.n(400, 6000))], label='coordinate-wise runs')


if __name__ == '__main__':
    main('P20', run)

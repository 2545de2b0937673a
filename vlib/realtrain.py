"""Real trainers, models and optimisers, run with and without interruptions."""
import contextlib, io, os, shutil, tempfile
from collections.abc import Mapping
import numpy as np
import torch
from lambeq import (AtomicType, BinaryCrossEntropyLoss, Dataset, IQPAnsatz, NelderMeadOptimizer, NumpyModel,
                    PennyLaneModel, PytorchModel, PytorchQuantumModel, PytorchTrainer, QuantumTrainer,
                    RotosolveOptimizer, Sim14Ansatz, SPSAOptimizer, SpiderAnsatz, TketModel)
from lambeq.backend.grammar import Cup, Id, Word
from lambeq.backend.tensor import Dim
from vlib.train import Checkpoint, Crash

N, S = AtomicType.NOUN, AtomicType.SENTENCE


def sentence(a, b, c=None):
    if c is None:
        return Word(a, N) @ Word(b, N.r @ S) >> Cup(N, N.r) @ Id(S)
    return (Word(a, N) @ Word(b, N.r @ S @ N.l) @ Word(c, N)
            >> Cup(N, N.r) @ Id(S) @ Cup(N.l, N))


SENTS = [sentence('A', 'x'), sentence('B', 'x'), sentence('A', 'y'), sentence('B', 'y'), sentence('C', 'x')]


def circuits(ans='iqp'):
    if ans == 'tensor':
        a = SpiderAnsatz({N: Dim(2), S: Dim(2)})
    elif ans == 'sim14':
        a = Sim14Ansatz({N: 1, S: 1}, n_layers=1)
    else:
        a = IQPAnsatz({N: 1, S: 1}, n_layers=1, n_single_qubit_params=1)
    return [a(s) for s in SENTS]


def nums(x, out=None):
    """Every number in a nested structure, in a fixed order, times 10^6."""
    out = [] if out is None else out
    if isinstance(x, torch.nn.ParameterList):
        x = list(x)
    if isinstance(x, torch.Tensor):
        x = x.detach().cpu().numpy()
    if hasattr(x, 'filled'):
        x = x.filled()
    if isinstance(x, Mapping):
        for k in sorted(x, key=str):
            nums(x[k], out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            nums(v, out)
    elif isinstance(x, np.ndarray) or type(x).__module__.startswith('jax'):
        for v in np.asarray(x).reshape(-1):
            nums(v.item(), out)
    elif x is None:
        out.append(-7)
    elif isinstance(x, complex):
        nums(x.real, out), nums(x.imag, out)
    elif isinstance(x, (int, float, np.number, bool)):
        v = float(x)
        out.append(-77777777 if v != v else round(max(-2000., min(2000., v)) * 1e6))
    return out


SETUPS = {
    'spsa': dict(tr='q', opt=SPSAOptimizer, hyp={'a': .2, 'c': .06, 'A': 1.}, ans='iqp', model=NumpyModel),
    'spsa-bounds': dict(tr='q', opt=SPSAOptimizer, hyp={'a': .2, 'c': .06, 'A': 1.}, ans='iqp', model=NumpyModel, bounds=True),
    'spsa-jit': dict(tr='q', opt=SPSAOptimizer, hyp={'a': .2, 'c': .06, 'A': 1.}, ans='iqp', model=NumpyModel, mk={'use_jit': True}),
    'rotosolve': dict(tr='q', opt=RotosolveOptimizer, hyp=None, ans='iqp', model=NumpyModel),
    'nelder-mead': dict(tr='q', opt=NelderMeadOptimizer, hyp={'adaptive': False}, ans='iqp', model=NumpyModel),
    'nelder-mead-adaptive': dict(tr='q', opt=NelderMeadOptimizer, hyp={'adaptive': True}, ans='iqp', model=NumpyModel),
    'adamw': dict(tr='t', opt=torch.optim.AdamW, ans='tensor', model=PytorchModel),
    'sgd-momentum': dict(tr='t', opt=torch.optim.SGD, oargs={'momentum': .9}, ans='tensor', model=PytorchModel),
    'torch-quantum': dict(tr='t', opt=torch.optim.Adam, ans='iqp', model=PytorchQuantumModel),
    'pennylane': dict(tr='t', opt=torch.optim.Adam, ans='iqp', model=PennyLaneModel),
}


class Log:
    def __init__(self, crash_at, crash_when):
        self.ev, self.calls, self.crash_at, self.crash_when = [], 0, crash_at, crash_when

    def add(self, op, ids=(), vals=(), parts=()):
        self.ev.append({'op': op, 'ids': list(ids), 'nums': nums(list(vals)), 'parts': [[k, nums(v)] for k, v in parts]})


def fit(name, cfg, d, resume, crash_at=None, crash_when='before'):
    su = SETUPS[name]
    log = Log(crash_at, crash_when)
    circ = circuits(su['ans'])
    ident = {id(c): i + 1 for i, c in enumerate(circ)}
    tq = su['tr'] == 't'
    targets = [[0., 1.], [1., 0.], [1., 0.], [0., 1.], [1., 0.]]
    base = PytorchTrainer if tq else QuantumTrainer

    class Rec(base):
        def _go(self, op, batch, sup):
            log.calls += 1
            if log.calls == log.crash_at and log.crash_when == 'before':
                raise Crash
            out = sup(batch)
            if log.calls == log.crash_at:
                raise Crash
            log.add(op, [ident[id(c)] for c in batch[0]], [batch[1], float(out[1]), self.model.weights, out[0]])
            return out

        def training_step(self, batch):
            return self._go('train', batch, super().training_step)

        def validation_step(self, batch):
            return self._go('val', batch, super().validation_step)

        def save_checkpoint(self, save_dict, log_dir, prefix=''):
            super().save_checkpoint(save_dict, log_dir, prefix)
            if not prefix:
                log.add('saved', [save_dict['epoch'], save_dict['step']], [self.model.weights])

    with contextlib.redirect_stderr(io.StringIO()):
        m = su['model'].from_diagrams(circ, **su.get('mk', {}))
        kw = dict(epochs=cfg['E'], log_dir=d, from_checkpoint=resume, verbose='suppress', seed=cfg['seed'],
                  evaluate_functions={'acc': lambda yh, y: float(np.mean(np.asarray(torch.as_tensor(np.asarray(
                      torch.as_tensor(yh).detach() if not isinstance(yh, np.ndarray) and hasattr(yh, 'detach') else yh))).argmax(-1)
                      == np.asarray(torch.as_tensor(np.asarray(y))).argmax(-1)))})
        if tq:
            def tl(yh, y):
                return ((yh - y) ** 2).mean()
            t = Rec(m, tl, optimizer=su['opt'], learning_rate=.05, optimizer_args=su.get('oargs'), **kw)
        else:
            def ql(yh, y):
                return float(np.mean((np.asarray(yh) - np.asarray(y)) ** 2))
            oa = {'bounds': [[0, 1]] * len(m.symbols)} if su.get('bounds') else None
            t = Rec(m, ql, optimizer=su['opt'], optim_hyperparams=su['hyp'], optimizer_args=oa, **kw)
        tr = Dataset(circ, targets, batch_size=cfg['B'], shuffle=cfg['shuffle'])
        va = Dataset(circ[:cfg['VN']], targets[:cfg['VN']], batch_size=cfg['VB'], shuffle=cfg['shuffle'])
        outcome = 'end'
        try:
            t.fit(tr, va, eval_interval=cfg['ei'], eval_mode=cfg['mode'])
        except Crash:
            outcome = 'crash'
        except Exception as e:  # noqa: BLE001
            outcome = 'error'
            log.ev.append({'op': 'error', 'what': repr(e)[:200]})
    if outcome == 'crash':
        log.ev.append({'op': 'crash'})
    elif outcome == 'end':
        parts = [('weights', m.weights), ('train-costs', t.train_costs), ('epoch-costs', t.train_epoch_costs),
                 ('val-costs', t.val_costs), ('train-metrics', t.train_eval_results), ('val-metrics', t.val_eval_results),
                 ('lengths', [len(t.train_durations), len(t.val_durations), len(t.train_epoch_durations)])]
        parts.append(('optimizer', t.optimizer.state_dict()))
        for f in ('model.lt', 'best_model.lt'):
            p = os.path.join(d, f)
            if os.path.exists(p):
                c = Checkpoint.from_file(p)
                parts.append((f, [c['epoch'], c['step'], c['model_weights'], c['val_costs'], c['train_costs'],
                                  c['optimizer_state_dict']]))
        log.add('end', [], [], parts)
    return log


def config(rng):
    return {'E': rng.randint(2, 3), 'B': rng.randint(2, 5), 'VN': rng.randint(1, 4), 'VB': rng.randint(1, 3),
            'ei': rng.choice([1, 1, 2]), 'mode': rng.choice(['epoch', 'step']), 'shuffle': rng.random() < .8,
            'seed': rng.randint(0, 50)}


def case(name, cfg, rng, crashes=None):
    d = tempfile.mkdtemp(prefix='verif-rt-')
    try:
        ref = fit(name, cfg, os.path.join(d, 'ref'), False)
        n = max(1, ref.calls)
        evs, resume, dd = [], False, os.path.join(d, 'run')
        for k in range(rng.choice([1, 1, 2])):
            lg = fit(name, cfg, dd, resume, rng.randint(1, n), rng.choice(['before', 'after']))
            evs += [{'op': 'start'}] + lg.ev
            resume = os.path.exists(os.path.join(dd, 'model.lt'))
            if lg.ev[-1]['op'] != 'crash':
                break
        else:
            lg = fit(name, cfg, dd, resume)
            evs += [{'op': 'start'}] + lg.ev
        return {'what': name, 'ref': ref.ev, 'events': evs}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def predictions(m, circ):
    return nums(m(circ))


def restore_case(name, rng):
    """Save a model, restore it in every offered way, compare."""
    su = SETUPS.get(name) or {'ans': 'iqp', 'model': TketModel}
    d = tempfile.mkdtemp(prefix='verif-rt-')
    ev = []
    try:
        circ = circuits(su['ans'])
        mk = dict(su.get('mk', {}))
        tket = su['model'] is TketModel
        if tket:
            from pytket.extensions.qiskit import AerBackend
            b = AerBackend()
            mk['backend_config'] = {'backend': b, 'compilation': b.default_compilation_pass(2), 'shots': 64}
        some = rng.sample(circ, rng.randint(2, 5))
        other = rng.sample(circ, rng.randint(2, 5))
        if su.get('mk') or rng.random() < .5:   # as many symbols, at other positions
            some, other = [circ[1], circ[4]], [circ[0], circ[1]]
        m = su['model'].from_diagrams(some, **mk)
        m.initialise_weights()
        p = os.path.join(d, 'm.lt')
        pred = [] if tket else predictions(m, some)
        m.save(p)
        w = nums(m.weights)

        def rec(what, m2):
            pr = [] if tket else predictions(m2, some)
            ev.append({'op': 'restore', 'what': what, 'syms': [[str(s) for s in m.symbols], [str(s) for s in m2.symbols]],
                       'w': [w, nums(m2.weights)], 'pred': [pred, pr]})

        def guarded(what, fn):
            try:
                rec(what, fn())
            except Exception as e:  # noqa: BLE001
                ev.append({'op': 'error', 'what': f'{what} {e!r}'[:200]})
        guarded('from_checkpoint', lambda: su['model'].from_checkpoint(p, **mk))

        def loaded():
            m2 = su['model'].from_diagrams(other, **mk)
            m2.initialise_weights()
            if not tket:
                predictions(m2, other)
            m2.load(p)
            return m2
        guarded('load', loaded)

        def again():
            m2 = su['model'].from_checkpoint(p, **mk)
            q = os.path.join(d, 'n.lt')
            m2.save(q)
            return su['model'].from_checkpoint(q, **mk)
        guarded('saved-again', again)
        rec('itself', m)
        return {'what': name, 'ref': [], 'events': ev}
    finally:
        shutil.rmtree(d, ignore_errors=True)

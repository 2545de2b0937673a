"""Scripted models, optimisers and trainers, and the recorder of training runs.

The scripts make every number an integer that depends on everything it should
depend on, so that a run is determined by its configuration and its seed.
"""
import os, random, shutil, tempfile
from fractions import Fraction
import numpy as np
import torch
from lambeq.training import (Checkpoint, Dataset, Model, Optimizer, PytorchTrainer,
                             QuantumModel, QuantumTrainer, Trainer)

MOD = 9973


class Crash(Exception):
    pass


class Bomb:
    """Pickles normally until it is armed."""
    armed = False

    def __reduce__(self):
        if Bomb.armed:
            raise Crash('save failed')
        return (Bomb, ())


def mix(w, xs):
    h = w
    for x in xs:
        h = (h * 31 + x + 7) % MOD
    return h


def num(v):
    """A number as a rational the specification can read."""
    f = Fraction(float(v)).limit_denominator(2000)
    if abs(float(f) - float(v)) > 1e-4 * max(1, abs(float(v))):
        return [-999999, 1]
    return [f.numerator, f.denominator]


class StubModel(Model):
    """weights: [number of updates, hash, bomb]"""

    def __init__(self, seed=0):
        super().__init__()
        self.symbols = ['a', 'b']
        self.weights = [-1, -1]

    def initialise_weights(self):
        self.weights = [0, random.randrange(MOD)]

    def _load_checkpoint(self, c):
        self.weights = list(c['model_weights'][:2])
        self.symbols = c['model_symbols']

    def _make_checkpoint(self):
        c = Checkpoint()
        c.add_many({'model_weights': [*self.weights, Bomb()], 'model_symbols': self.symbols})
        return c

    def get_diagram_output(self, xs):
        return [mix(self.weights[1], [x]) % 11 for x in xs]

    def forward(self, xs):
        return self.get_diagram_output(xs)


class QStubModel(QuantumModel):
    def __init__(self):
        super().__init__()
        self.symbols = ['a', 'b']

    def initialise_weights(self):
        self.weights = np.array([0, int(np.random.randint(MOD))])

    def _make_checkpoint(self):
        c = super()._make_checkpoint()
        c['bomb'] = Bomb()
        return c

    def get_diagram_output(self, xs):
        return np.array([mix(int(self.weights[1]), [x]) % 11 for x in xs])

    def forward(self, xs):
        return self.get_diagram_output(xs)


class StubOptimizer(Optimizer):
    """An optimiser with state: a velocity that must survive a resume."""

    def __init__(self, model, loss_fn, hyperparams=None, bounds=None, script=None):
        super().__init__(model=model, loss_fn=loss_fn, hyperparams=hyperparams, bounds=bounds)
        self.v, self.script = 5, script

    def backward(self, batch):
        x, y = batch
        y_hat = self.model(x)
        loss = self.script.train_loss(int(self.model.weights[0]), x)
        self.gradient = np.array([1, mix(self.v, [*x, int(sum(y_hat))])])
        return loss

    def step(self):
        self.v = (self.v * 3 + 1) % 1009
        w = self.model.weights
        self.model.weights = np.array([int(w[0]) + 1, mix(int(w[1]), [int(self.gradient[1])])])

    def state_dict(self):
        return {'v': self.v}

    def load_state_dict(self, d):
        self.v = d['v']


class TorchStubModel(Model, torch.nn.Module):
    def __init__(self):
        Model.__init__(self)
        torch.nn.Module.__init__(self)
        self.symbols = ['a']
        self.weights = torch.nn.ParameterList([])

    def initialise_weights(self):
        self.weights = torch.nn.ParameterList(
            [torch.nn.Parameter(torch.tensor([0., float(torch.randint(97, (1,)))]))])

    def _load_checkpoint(self, c):
        self.symbols = c['model_symbols']
        self.weights = c['model_weights']
        self.load_state_dict(c['model_state_dict'])

    def _make_checkpoint(self):
        c = Checkpoint()
        c.add_many({'model_symbols': self.symbols, 'model_weights': self.weights,
                    'model_state_dict': self.state_dict(), 'bomb': Bomb()})
        return c

    def get_diagram_output(self, xs):
        return torch.stack([self.weights[0] * 0 + float(x) for x in xs])

    def forward(self, xs):
        # first column: the update count; second: the parameter; third: the datum
        return torch.stack([torch.stack([self.weights[0][0], self.weights[0][1], torch.tensor(float(x))])
                            for x in xs])


def wkey(w):
    """[updates, value] of any stub's weights."""
    if isinstance(w, torch.nn.ParameterList):
        w = w[0].detach().tolist()
    return [int(w[0]), int(round(float(w[1])))]


class Script:
    """Losses and metric values as integer functions of the state."""

    def __init__(self, val, kind='stub', mult=1):
        self.val, self.kind, self.mult = val, kind, mult

    def train_loss(self, k, xs):
        return (3 * k + sum(xs) + (self.val[k % len(self.val)] if self.val else 0)) % 9

    def val_loss(self, k, xs):
        # every batch shifts the evaluation's value by its own share
        return self.val[k % len(self.val)] * self.mult + (sum(xs) % 2 if self.mult > 1 else 0)


class Recorder:
    def __init__(self, cfg, log_dir, crash_at=None, crash_when='before', bomb_at=None):
        self.cfg, self.dir = cfg, log_dir
        self.crash_at, self.crash_when, self.bomb_at = crash_at, crash_when, bomb_at
        self.events, self.calls, self.saves, self.bomb = [], 0, 0, ''
        self.cur, self.cache = None, {}

    # ---- observations -----------------------------------------------
    def file(self, name, full=False):
        p = os.path.join(self.dir, name)
        if not os.path.exists(p):
            return {'there': False}
        st = os.stat(p)
        key = (st.st_mtime_ns, st.st_size, st.st_ino)
        if self.cache.get(name, (None,))[0] != key:
            try:
                c = Checkpoint.from_file(p)
                v = {'there': True, 'usable': True, 'ep': int(c['epoch']), 'step': int(c['step']),
                     'w': wkey(c['model_weights']), 'books': books(c)}
            except Exception as e:  # noqa: BLE001
                v = {'there': True, 'usable': False}
            self.cache[name] = (key, v)
        v = self.cache[name][1]
        return v if full or not v.get('usable') else {k: v[k] for k in ('there', 'usable', 'ep', 'step', 'w')}

    def files(self, full=False):
        return {'fm': self.file('model.lt', full), 'fb': self.file('best_model.lt', full)}

    def step(self, op, trainer, batch, sup):
        x, y = batch
        self.calls += 1
        if self.crash_at == self.calls and self.crash_when == 'before':
            raise Crash
        e = {'op': op, 'x': [int(i) for i in x], 'y': [int(round(float(v))) for v in y],
             'w0': wkey(trainer.model.weights), 'mets': [], **self.files()}
        out = sup(batch)
        e['w1'] = wkey(trainer.model.weights)
        e['loss'] = int(round(float(out[1])))
        if self.crash_at == self.calls and self.crash_when == 'after':
            raise Crash
        self.events.append(e)
        return out

    def metric(self, name, y_hat, y):
        v = (int(np.asarray(torch.as_tensor(y_hat).detach()).sum()) + int(np.asarray(torch.as_tensor(y)).sum()) + len(name)) % 7
        if self.events:
            self.events[-1]['mets'].append([name, v])
        return v

    def save(self, prefix, sup):
        self.saves += 1
        if self.bomb_at == self.saves:
            self.bomb = prefix or 'model'
            Bomb.armed = True
        try:
            sup()
        finally:
            Bomb.armed = False


def books(c):
    ev = lambda d: [[k, [num(v) for v in d[k]]] for k in sorted(d)]
    return {'tc': [num(v) for v in c['train_costs']], 'tec': [num(v) for v in c['train_epoch_costs']],
            'tr': ev(c['train_eval_results']), 'vc': [num(v) for v in c['val_costs']],
            'vr': ev(c['val_eval_results']), 'td': len(c['train_durations']),
            'vd': len(c['val_durations']), 'ted': len(c['train_epoch_durations']),
            'neg': any(t < 0 for k in ('train_durations', 'val_durations', 'train_epoch_durations') for t in c[k])}


def make_trainer(cfg, rec, script, resume):
    base = {'stub': Trainer, 'quantum': QuantumTrainer, 'torch': PytorchTrainer}[cfg['kind']]

    class Rec(base):
        def save_checkpoint(self, save_dict, log_dir, prefix=''):
            rec.save(prefix, lambda: super(Rec, self).save_checkpoint(save_dict, log_dir, prefix))

        def training_step(self, batch):
            return rec.step('train', self, batch, super().training_step)

        def validation_step(self, batch):
            return rec.step('val', self, batch, super().validation_step)

    class Stub(Rec):
        def _add_extra_checkpoint_info(self, checkpoint):
            pass

        def _load_extra_checkpoint_info(self, checkpoint):
            pass

        def training_step(self, batch):
            def go(b):
                x, y = b
                w = self.model.weights
                y_hat = self.model(x)
                loss = script.train_loss(w[0], x)
                self.train_costs.append(loss)
                self.model.weights = [w[0] + 1, mix(w[1], x)]
                return y_hat, loss
            return rec.step('train', self, batch, go)

        def validation_step(self, batch):
            return rec.step('val', self, batch, lambda b: (self.model(b[0]), script.val_loss(self.model.weights[0], b[0])))

    mets = {m: (lambda yh, y, m=m: rec.metric(m, yh, y)) for m in cfg['mets']} or None
    kw = dict(epochs=cfg['E'], evaluate_functions=mets, evaluate_on_train=cfg['evalTrain'],
              log_dir=rec.dir, from_checkpoint=resume, verbose=cfg.get('verbose', 'suppress'), seed=cfg['seed'])
    if cfg['kind'] == 'stub':
        m = StubModel()
        return Stub(m, lambda a, b: 0, **kw)
    if cfg['kind'] == 'quantum':
        m = QStubModel()
        # the loss function is what the trainer itself calls in validation
        loss = lambda yh, y: script.val_loss(int(m.weights[0]), [int(v) - 100 for v in y])
        return Rec(m, loss, optimizer=StubOptimizer, optim_hyperparams={}, optimizer_args={'script': script}, **kw)
    m = TorchStubModel()

    def tloss(yh, y):
        # integer valued; gradient 1 on the count and an integer on the value
        k = int(yh[0][0])
        xs = [int(v) - 100 for v in y]
        n = len(xs)
        base = script.train_loss(k, xs) if torch.is_grad_enabled() else script.val_loss(k, xs)
        g0 = -yh[:, 0].sum() / n
        g1 = -yh[:, 1].sum() / n * (mix(k, xs) % 5)
        return base + (g0 - g0.detach()) + (g1 - g1.detach())
    return Rec(m, tloss, optimizer=torch.optim.SGD, learning_rate=1.0, **kw)


def run(cfg, log_dir, script, resume, crash_at=None, crash_when='before', bomb_at=None):
    """One call of fit; returns the events."""
    rec = Recorder(cfg, log_dir, crash_at, crash_when, bomb_at)
    start = {'op': 'start', 'resume': bool(resume), **rec.files()}
    rec.events.append(start)
    outcome = None
    trainer = None
    try:
        import contextlib, io
        with contextlib.redirect_stderr(io.StringIO()):
            trainer = make_trainer(cfg, rec, script, resume)
            start['w'] = wkey(trainer.model.weights)
            ids = list(range(1, cfg['N'] + 1))
            tr = Dataset(ids, [100 + i for i in ids], batch_size=cfg['B'], shuffle=cfg['shuffle'])
            vids = list(range(51, 51 + cfg['VN']))
            va = Dataset(vids, [100 + i for i in vids], batch_size=cfg['VB'], shuffle=cfg['vshuffle']) if cfg['VN'] else None
            trainer.fit(tr, va, log_interval=cfg.get('log', 1), eval_interval=cfg['ei'], eval_mode=cfg['mode'],
                        early_stopping_criterion=cfg['crit'] or None,
                        early_stopping_interval=cfg['K'] or None,
                        minimize_criterion=cfg['min'])
        outcome = 'end'
    except Crash:
        outcome = 'crash'
    except Exception as e:  # noqa: BLE001
        outcome = 'error:' + type(e).__name__ + ':' + str(e)[:60]
    finally:
        Bomb.armed = False
    if 'w' not in start:
        start['w'] = [-1, -1]
    e = {'op': outcome if outcome in ('end', 'crash') else 'error', 'bomb': rec.bomb, 'what': outcome, **rec.files(full=True)}
    if outcome == 'end':
        e['books'] = books({k: getattr(trainer, k) for k in (
            'train_costs', 'train_epoch_costs', 'train_eval_results', 'val_costs', 'val_eval_results',
            'train_durations', 'val_durations', 'train_epoch_durations')})
        e['w'] = wkey(trainer.model.weights)
    rec.events.append(e)
    return rec.events, rec


def history(cfg, crashes):
    """Run, crash as scheduled, resume, ... until fit returns."""
    d = tempfile.mkdtemp(prefix='verif-train-')
    script = Script(cfg['script'], cfg['kind'], cfg.get('mult', 1))
    events = []
    try:
        todo = list(crashes)
        resume = False
        while True:
            c = todo.pop(0) if todo else {}
            ev, rec = run(cfg, d, script, resume, **c)
            events += ev
            if ev[-1]['op'] == 'end' and cfg.get('again'):
                ev, rec = run(cfg, d, script, True)
                events += ev
            if ev[-1]['op'] != 'crash':
                break
            resume = os.path.exists(os.path.join(d, 'model.lt'))
        return {'cfg': cfg, 'events': events}
    finally:
        shutil.rmtree(d, ignore_errors=True)

"""P11: ansätze, judged by spec/P11Model.tla, P11Trace.tla, P11TTrace.tla."""
import json
import sys
sys.path.insert(0, '/verif')
import numpy as np
from lambeq import (IQPAnsatz, MPSAnsatz, Sim4Ansatz, Sim9Ansatz, Sim9CxAnsatz, Sim14Ansatz,
                    Sim15Ansatz, SpiderAnsatz, StronglyEntanglingAnsatz, TensorAnsatz)
from lambeq.backend import quantum as Q
from lambeq.backend.grammar import (Box, Cap, Cup, Daggered, Diagram, Id, Spider, Swap, Ty, Word)
from lambeq.backend.tensor import Dim
from vlib import gen
from vlib.core import MachineryError, attempt, main
from vlib.qgen import fixed

CIRC = {'IQP': IQPAnsatz, 'Sim14': Sim14Ansatz, 'Sim15': Sim15Ansatz, 'Sim4': Sim4Ansatz,
        'StronglyEntangling': StronglyEntanglingAnsatz, 'Sim9': Sim9Ansatz, 'Sim9Cx': Sim9CxAnsatz}
ROTS = {'Rx': Q.Rx, 'Ry': Q.Ry, 'Rz': Q.Rz}
BASES = {'H': Q.H, 'S': Q.S, 'X': Q.X}


def kind(b):
    return ('cup' if isinstance(b, Cup) else 'cap' if isinstance(b, Cap) else
            'swap' if isinstance(b, Swap) else 'spider' if isinstance(b, Spider) else 'box')


class Classes:
    """Boxes up to adjoint and dagger, numbered from 1."""

    def __init__(self):
        self.ids, self.boxes = {}, []

    def base(self, b):
        dg = 0
        if isinstance(b, Daggered):
            b, dg = b.box, 1
        z = b.z
        if z:
            b = b.rotate(-z)
        return b, z, dg

    def of(self, b):
        b, z, dg = self.base(b)
        key = (b.name, str(b.dom), str(b.cod))
        if key not in self.ids:
            self.boxes.append(b)
            self.ids[key] = len(self.boxes)
        return self.ids[key], z, dg


def tstrs(t):
    return [str(o) for o in t]


def project(d, classes, wire):
    out = []
    for y in d.layers:
        b = {'k': kind(y.box), 'd': [wire(o) for o in y.box.dom], 'c': [wire(o) for o in y.box.cod],
             'cls': 0, 'z': 0, 'dg': 0}
        if b['k'] == 'box':
            b['cls'], b['z'], b['dg'] = classes.of(y.box)
        out.append({'L': [wire(o) for o in y.left], 'b': b, 'R': [wire(o) for o in y.right]})
    return {'dom': [wire(o) for o in d.dom], 'cod': [wire(o) for o in d.cod], 'layers': out}


def single(b):
    return b.to_diagram() if not isinstance(b, Diagram) else b


def ev(circ, syms_of, phases, mixed):
    """Evaluate the circuit with its symbols at quarter turns."""
    syms = sorted(circ.free_symbols)
    d = circ.lambdify(*syms)(*[phases.get(s.name, 0) / 4 for s in syms]) if syms else circ
    r = np.asarray(d.eval(mixed=True) if mixed else d.eval())
    return [fixed(x) for x in r.reshape(-1)]


NAMES = ['Ann', 'sleeps', 'very big', 'likes', 'Bob', 'quickly', 'the']


def boxes(rng, namer_pool, dom, cod):
    name = rng.choice(namer_pool)
    return Word(name, cod) if not dom and rng.random() < .7 else Box(name, dom, cod)


def grammar_diagram(rng, q, maxq, n_layers, kinds, dag=True, maxw=5, spider1=True, names=NAMES):
    """A random diagram over the types in q (name -> qubits or size), never wider than maxq."""
    atoms = [a for a in q]
    wire = lambda t: sum(q[o.name] for o in t)

    def rty(lo, hi):
        t = Ty()
        for _ in range(rng.randint(lo, hi)):
            t = t @ Ty(rng.choice(atoms), z=rng.choice([-1, 0, 0, 0, 1]))
        return t
    cur = rty(0, 1) if rng.random() < .3 else Ty()
    if wire(cur) > 2:
        cur = Ty()
    dom, layers = cur, []
    for _ in range(n_layers):
        for _ in range(12):
            k, w, objs = rng.choice(kinds), len(cur), [*cur]
            if k == 'word':
                b, i = boxes(rng, names, Ty(), rty(1, 3)), rng.randint(0, w)
            elif k == 'box':
                m = rng.randint(0, min(2, w))
                i = rng.randint(0, w - m)
                d, c = cur[i:i + m], rty(0, 2)
                x = rng.random()
                if not dag or x < .55:
                    b = boxes(rng, names, d, c)
                elif x < .7:
                    b = boxes(rng, names, c, d).dagger()
                elif x < .9:
                    z = rng.choice([1, -1, 2, 1])
                    b = boxes(rng, names, d.rotate(-z), c.rotate(-z)).rotate(z)
                else:
                    b = boxes(rng, names, c.rotate(-1), d.rotate(-1)).rotate(1).dagger()
            elif k == 'cup':
                cand = [i for i in range(w - 1) if objs[i].r == objs[i + 1] or objs[i].l == objs[i + 1]]
                if not cand:
                    continue
                i = rng.choice(cand)
                b = Cup(objs[i], objs[i + 1], is_reversed=objs[i].r != objs[i + 1])
            elif k == 'cap':
                a, rev, i = rty(1, 1), rng.random() < .3, rng.randint(0, w)
                b = Cap(a, a.r if rev else a.l, is_reversed=rev)
            elif k == 'swap':
                if w < 2:
                    continue
                i = rng.randint(0, w - 2)
                b = Swap(objs[i], objs[i + 1])
            else:
                i = rng.randint(0, w)
                a = objs[i] if i < w else rty(1, 1)
                m = 0
                while i + m < w and m < 2 and objs[i + m] == a:
                    m += 1
                m = rng.randint(0, m)
                b = Spider(a, m, rng.randint(0 if m else 1, 2))
                if spider1 and q[a[0].name] > 1 and (m, len(b.cod)) != (1, 1):
                    continue    # refused by design: multi-qubit spiders
            left, right = cur[:i], cur[i + len(b.dom):]
            if len(left @ b.cod @ right) > maxw or wire(left @ b.cod @ right) > maxq:
                continue
            layers.append(gen.lay(left, b, right))
            cur = layers[-1].cod
            break
    return Diagram(dom=dom, cod=cur, layers=layers)


KINDS = ('word', 'word', 'word', 'box', 'box', 'cup', 'cup', 'cap', 'swap', 'spider')


def circuit_case(rng, a=None, fixed_layers=None):
    a = a or rng.choice(list(CIRC))
    discard = rng.random() < .3
    q = {'n': rng.choice([1, 1, 1, 2]), 's': rng.choice([0, 1, 1, 2]), 'p': rng.choice([0, 1, 1, 2, 3])}
    cfg = {'a': a, 'layers': rng.choice([0, 1, 1, 2]), 'nsq': rng.choice([0, 1, 2, 3, 3, 4]),
           'rots': rng.choice([['Rx', 'Rz'], ['Rx', 'Rz'], ['Ry'], ['Rz', 'Ry', 'Rx']]),
           'discard': discard, 'basis': rng.choice([[], [], ['H'], ['S', 'H'], ['X']]), 'ranges': []}
    maxq = 3 if discard else 5
    ancs = rng.choice([0, 0, 0, 1, 'dict', 'fn'])
    d = [grammar_diagram(rng, q, maxq, rng.randint(1, 6), KINDS) for _ in range(3)]
    classes = Classes()
    plan = []
    wire = lambda o: q[o.name]
    for x in d:
        plan.append(('diagram', x, project(x, classes, wire)))
    for b in list(classes.boxes):
        x = single(b)
        plan.append(('box', x, project(x, classes, wire)))
    qn = lambda t: sum(q[o.name] for o in t)
    widths = [max(qn(b.dom), qn(b.cod)) for b in classes.boxes]
    # ancillas
    if ancs == 'dict':
        table = {b: rng.choice([0, 1]) for b, w in zip(classes.boxes, widths)
                 if w < 4 and rng.random() < .6}
        arg, anc = table, [table.get(b, 0) for b in classes.boxes]
    elif ancs == 'fn':
        arg = lambda b: len(b.name) % 2
        anc = [len(b.name) % 2 for b in classes.boxes]
    else:
        arg, anc = ancs, [ancs] * len(widths)
    kw = {}
    if a == 'StronglyEntangling':
        cfg['rots'], cfg['basis'] = ['Rz', 'Ry'], []
        full = [w + x for w, x in zip(widths, anc) if w + x > 1]
        if rng.random() < .4 and full:
            kw['ranges'] = cfg['ranges'] = [rng.randint(1, min(full) - 1) for _ in range(cfg['layers'])]
    else:
        if cfg['rots'] != ['Rx', 'Rz'] or rng.random() < .5:
            kw['single_qubit_rotations'] = [ROTS[r] for r in cfg['rots']]
        if cfg['basis']:
            c = Q.Id(Q.qubit)
            for g in cfg['basis']:
                c = c >> BASES[g]
            kw['postselection_basis'] = c
    obm = {Ty(k): (v if rng.random() < .7 else Q.qubit ** v) for k, v in q.items()}
    ansatz = CIRC[a](obm, n_layers=cfg['layers'], n_single_qubit_params=cfg['nsq'],
                     discard=discard, n_ancillas=arg, **kw)
    cls, phases = [], {}
    odd = 6      # at most so many parameters off the half turns, to keep numbers small
    for b, w, n in zip(classes.boxes, widths, anc):
        cls.append({'name': b.name.replace(' ', '\\ '), 'dt': tstrs(b.dom), 'ct': tstrs(b.cod),
                    'dom': qn(b.dom), 'cod': qn(b.cod), 'anc': n})
        np_ = 64
        ph = []
        for i in range(np_):
            v = rng.choice([0, 2, 2, 4, 6])
            if odd and i < 12 and rng.random() < .5:
                v = rng.choice([1, 3, 5, 7])
                odd -= 1
            ph.append(v)
        cls[-1]['ph'] = ph
        label = f"{cls[-1]['name']}_{'@'.join(cls[-1]['dt'])}_{'@'.join(cls[-1]['ct'])}"
        for i, v in enumerate(ph):
            phases[f'{label}_{i}'] = v
    events = []
    for op, x, pj in plan:
        used = {y['b']['cls'] for y in pj['layers'] if y['b']['k'] == 'box'}
        mixed = discard and any(max(0, c['dom'] - c['cod']) + c['anc'] > 0
                                for i, c in enumerate(cls, 1) if i in used)
        width = max([sum(y[k]) for y in pj['layers'] for k in ('L',)] + [0])
        if mixed and (sum(pj['dom']) + sum(pj['cod']) > 5):
            continue

        def go():
            circ = ansatz(x)
            return {'dn': len(circ.dom), 'cn': len(circ.cod),
                    'syms': sorted(s.name for s in circ.free_symbols), 'v': ev(circ, None, phases, mixed)}
        ok, r = attempt(go, limit=60)
        events.append({'op': op, 'd': pj, 'ok': ok, **(r if ok else {'err': r})})
    return {'cfg': cfg, 'classes': cls, 'events': events}


def spread(rng, n, odd=6):
    """Quarter turns for n parameters, few of them off the half turns so that exact numbers stay small."""
    out = [rng.choice([0, 2, 2, 4, 6]) for _ in range(n)]
    for i in rng.sample(range(n), min(n, odd)):
        out[i] = rng.choice([1, 3, 5, 7])
    return out


def replay(rng, v):
    """One configuration of P11Model on the real ansatz."""
    cfg = v['cfg']
    n = Ty('n')
    dom, cod = n ** v['dom'], n ** v['cod']
    b = Box('w', dom, cod)
    ph = spread(rng, max(1, v['np']))
    phases = {f"w_{'@'.join('n' * v['dom'])}_{'@'.join('n' * v['cod'])}_{i}": x for i, x in enumerate(ph)}
    extras = max(v['dom'], v['cod']) + v['anc'] - v['cod']
    mixed = cfg['discard'] and extras > 0
    ones = lambda k: [1] * k

    def go():
        a = CIRC[cfg['a']]({n: 1}, n_layers=cfg['layers'], n_single_qubit_params=cfg['nsq'],
                           discard=cfg['discard'], n_ancillas=v['anc'])
        circ = a(b.to_diagram())
        return {'dn': len(circ.dom), 'cn': len(circ.cod),
                'syms': sorted(s.name for s in circ.free_symbols), 'v': ev(circ, None, phases, mixed)}
    ok, r = attempt(go, limit=60)
    pj = {'dom': ones(v['dom']), 'cod': ones(v['cod']), 'layers': [
        {'L': [], 'R': [], 'b': {'k': 'box', 'd': ones(v['dom']), 'c': ones(v['cod']), 'cls': 1, 'z': 0, 'dg': 0}}]}
    return {'cfg': cfg, 'classes': [{'name': 'w', 'dt': ['n'] * v['dom'], 'ct': ['n'] * v['cod'],
                                     'dom': v['dom'], 'cod': v['cod'], 'anc': v['anc'], 'ph': ph}],
            'events': [{'op': 'config', 'd': pj, 'ok': ok, **(r if ok else {'err': r})}]}


# ---- tensor ansätze -----------------------------------------------------------
def tdims(t):
    return [int(x) for x in t.dim]


TENSOR = {'Tensor': TensorAnsatz, 'MPS': MPSAnsatz, 'Spider': SpiderAnsatz}


def tensor_case(rng, a, sharing):
    q = {'n': rng.choice([[2], [2], [3], [2, 3], [1]]), 's': rng.choice([[2], [1], [3], [2]]),
         'p': rng.choice([[2], [3, 2], [2]])}
    obm = {Ty(k): Dim(*v) for k, v in q.items()}
    size = {k: int(np.prod(v)) for k, v in q.items()}
    logs = {k: max(1, size[k].bit_length()) for k in q}
    cfg = {'a': a, 'order': 99, 'bond': 1, 'left': bool(rng.random() < .5)}
    if a == 'MPS':
        cfg.update(order=rng.choice([3, 3, 4]), bond=rng.choice([1, 2, 2, 3]))
        ansatz = MPSAnsatz(obm, bond_dim=cfg['bond'], max_order=cfg['order'], uncurry_left=cfg['left'])
    elif a == 'Spider':
        cfg.update(order=rng.choice([2, 2, 3, 4]))
        ansatz = SpiderAnsatz(obm, max_order=cfg['order'], uncurry_left=cfg['left'])
    else:
        ansatz = TensorAnsatz(obm)
    ob = {k: tdims(Dim(*v)) for k, v in q.items()}
    ob['B'] = tdims(Dim(cfg['bond']))
    wire = lambda o: {'n': o.name, 'z': int(o.z)}
    d = [grammar_diagram(rng, logs, 9, rng.randint(1, 6), KINDS, spider1=False,
                         names=NAMES[:1] if sharing else NAMES) for _ in range(3)]
    if sharing:
        n, s = Ty('n'), Ty('s')
        d += [Word('eats', t).to_diagram() for t in rng.sample(
            [n.r @ s, n.r @ s @ n.l, n.r @ s @ s.l @ n, n.r @ s @ n.l @ n.l, n.r @ s @ n.r], 2)]
    d = [x for x in d if np.prod([size[o.name] for o in x.dom @ x.cod]) <= 300]
    classes = Classes()
    plan = [('diagram', x, project(x, classes, wire)) for x in d]
    if not sharing:    # names that tell classes apart, to keep the known sharing out of the way
        seen, keep = {}, []
        for op, x, pj in plan:
            used = {y['b']['cls'] for y in pj['layers'] if y['b']['k'] == 'box'}
            names = {}
            if all(seen.setdefault(classes.boxes[i - 1].name, i) == i for i in used):
                keep.append((op, x, pj))
        plan = keep
    used = {y['b']['cls'] for _, _, pj in plan for y in pj['layers'] if y['b']['k'] == 'box'}
    remap, cl2 = {}, []
    for i in sorted(used):
        cl2.append(classes.boxes[i - 1])
        remap[i] = len(cl2)
    for _, _, pj in plan:
        for y in pj['layers']:
            if y['b']['k'] == 'box':
                y['b']['cls'] = remap[y['b']['cls']]
    for i, b in enumerate(cl2, 1):
        wires = lambda t: [wire(o) for o in t]
        plan.append(('box', single(b), {'dom': wires(b.dom), 'cod': wires(b.cod), 'layers': [
            {'L': [], 'R': [], 'b': {'k': 'box', 'd': wires(b.dom), 'c': wires(b.cod), 'cls': i, 'z': 0, 'dg': 0}}]}))
    cls, vals = [], {}
    for b in cl2:
        def pieces():
            t = ansatz(single(b))
            return [next(iter(x.free_symbols)) for x in t.boxes if x.free_symbols]
        ok, syms = attempt(pieces)
        syms = syms if ok else []
        for s in syms:
            if s.name not in vals:
                vals[s.name] = [[rng.choice([0, 1, -1, 2]), rng.choice([0, 0, 1, -1])] for _ in range(s.size)]
        cls.append({'name': b.name, 'dom': [wire(o) for o in b.dom], 'cod': [wire(o) for o in b.cod],
                    'syms': [{'n': s.name, 'd': int(s.directed_dom), 'c': int(s.directed_cod)} for s in syms],
                    'pieces': [vals[s.name] for s in syms]})
    events = []
    for op, x, pj in plan:
        def go():
            t = ansatz(x)
            syms = sorted(t.free_symbols)
            conc = t.lambdify(*syms)(*[np.array([complex(*v) for v in vals[s.name]]) for s in syms])
            r = np.asarray(conc.eval(dtype=complex)).reshape(-1)
            out = []
            for y in r:
                y = complex(y)
                out.append([round(y.real), round(y.imag)] if abs(y - complex(round(y.real), round(y.imag))) < 1e-6
                           else [str(y), ''])
            orders = [len(y.dom) + len(y.cod) for y in t.boxes if y.free_symbols]
            gorders = [0]
            if a != 'Tensor':
                # legs as grammar wires: count the pieces' types before they become dimensions
                gorders = [len(y.dom) + len(y.cod) for y in ansatz.split_functor(x).boxes
                           if kind(y) == 'box']
            return {'dn': tdims(t.dom), 'cn': tdims(t.cod), 'maxorder': max(gorders + [0]),
                    'syms': sorted(s.name for s in syms), 'v': out}
        ok, r = attempt(go, limit=60)
        events.append({'op': op, 'd': pj, 'ok': ok, **(r if ok else {'err': r})})
    return {'cfg': cfg, 'ob': ob, 'classes': cls, 'events': events}


def sharing(case, clauses):
    if set(clauses) <= {'MPS:shared-by-split-words', 'Spider:shared-by-split-words'}:
        return 'split:shared-by-split-words'
    return None


def run(chk):
    tc = [tensor_case(chk.rng, ['Tensor', 'MPS', 'Spider'][i % 3], i % 5 == 0)
          for i in range(chk.n(240, 1500))]
    chk.conform('P11TTrace', tc, label='tensors', keyf=sharing)
    rng = chk.rng
    m = chk.model('P11Model', cfg='P11ModelThorough.cfg' if chk.thorough else 'P11Model.cfg')
    runs = [json.loads(x.split('|', 1)[1].replace('\\"', '"')) for x in m.prints if x.startswith('@@RUN|')]
    if len(runs) < 1000:
        raise MachineryError(f'P11Model printed {len(runs)} configurations')
    runs = [v for v in runs if not v['cfg']['discard'] or v['dom'] + v['cod'] <= 4]
    chk.conform('P11Trace', [replay(rng, v) for v in runs], label='configurations')
    cases = [circuit_case(rng, list(CIRC)[i % len(CIRC)]) for i in range(chk.n(280, 2000))]
    chk.conform('P11Trace', cases, label='circuits')


if __name__ == '__main__':
    main('P11', run)

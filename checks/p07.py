"""P07: export to and import from tket, judged by spec/P07Trace.tla."""
import sys
sys.path.insert(0, '/verif')
import numpy as np
import pytket as tk
from lambeq.backend.converters.tk import Circuit as TkCircuit
from lambeq.backend.converters.tk import from_tk, to_tk
from lambeq.backend.quantum import Bra, Diagram, Id, Ket, Measure, bit, qubit
from vlib.core import attempt, main
from vlib import qgen


def half(p):
    return round(float(p) * 2) % 8   # half turns -> quarters of phase


def project(t):
    cmds = []
    for g in t.get_commands():
        cmds.append({'g': g.op.type.name, 'q': [q.index[0] for q in g.qubits],
                     'b': g.bits[0].index[0] if g.bits else 0,
                     'ph': half(g.op.params[0]) if g.op.params else 0})
        if g.op.params:
            assert abs(float(g.op.params[0]) * 2 - round(float(g.op.params[0]) * 2)) < 1e-6
    v, k = qgen.scal(getattr(t, 'scalar', 1))
    return {'n': t.n_qubits, 'nb': len(t.bits), 'cmds': cmds,
            'post': [[int(b), int(v)] for b, v in getattr(t, 'post_selection', {}).items()],
            'scalar': v, 'kk': k}


def values(d):
    """Outcome weights of a circuit without inputs whose outputs are bits."""
    arr = np.asarray(d.eval(mixed=True))
    return {'cod': qgen.w(d.cod), 'v': [qgen.fixed(x) for x in arr.reshape(-1)]}


def export_case(rng):
    style = rng.random()
    g = qgen.Gen(rng, mixed=style < .4, bitswap=False, maxq=4 if style > .7 else 3,
                 multi=rng.random() < .4, maxdist=3, rot_z=rng.random() < .2)
    if rng.random() < .8:   # gates tket knows
        old = g.controlled

        def controlled(width):
            from lambeq.backend import quantum as Q
            r = g.rng
            for _ in range(20):
                b = old(width)
                d, i = 0, b
                while isinstance(i, Q.Controlled):
                    i, d = i.controlled, d + 1
                if (isinstance(i, Q.Rotation) and d == 1) or (i.name == 'X' and d < 3) or (i.name == 'Z' and d < 2):
                    return b
            return Q.Controlled(Q.X, r.choice([1, -1]))
        g.controlled = controlled
    if style > .7:    # circuital from the start: kets first, effects last
        q = rng.randint(1, 4)
        d = Ket(*[rng.randint(0, 1) for _ in range(q)])
        d = d.to_diagram()
        g2 = g
        for _ in range(rng.randint(1, 6)):
            b, i = g2.step(d.cod)
            if type(b).__name__ in ('Ket', 'Bra', 'Discard', 'Measure'):
                continue
            d = d >> d.cod[:i] @ b @ d.cod[i + len(b.dom):]
        for _ in range(rng.randint(0, 3)):
            qs = [i for i, t in enumerate(d.cod) if t == qubit]
            if not qs:
                break
            i = rng.choice(qs)
            b = rng.choice([Measure(), Measure(), Bra(rng.randint(0, 1))])
            d = d >> d.cod[:i] @ b @ d.cod[i + 1:]
            if rng.random() < .2 and len(d.cod):
                b, i = g2.step(d.cod)
                if type(b).__name__ not in ('Ket',):
                    d = d >> d.cod[:i] @ b @ d.cod[i + len(b.dom):]
    else:
        d = g.diagram(dom=rng.choice([Id().dom, Id().dom, qubit]), n=rng.randint(2, 8))
    if rng.random() < .8:
        for i in reversed(range(len(d.cod))):
            if d.cod[i] == qubit and rng.random() < .8:
                d = d >> d.cod[:i] @ Measure() @ d.cod[i + 1:]
    if rng.random() < .2 and len(d.cod) > 1 and all(t == bit for t in d.cod):
        from lambeq.backend.quantum import Swap
        i = rng.randrange(len(d.cod) - 1)
        d = d >> d.cod[:i] @ Swap(bit, bit) @ d.cod[i + 2:]
    events = []
    j = qgen.diagram(d, g.data)
    before = repr(d)
    ok, t = attempt(lambda: to_tk(d))
    e = {'op': 'export', 'd': j, 'ok': ok}
    if ok:
        okp, p = attempt(lambda: project(t))
        e.update({'t': p} if okp else {'ok': False, 'err': p})
    else:
        e['err'] = t
    events.append(e)
    if repr(d) != before:
        events[-1].update(ok=False, err='operand changed')
    if ok:
        ok2, r = attempt(lambda: from_tk(t))
        e = {'op': 'reimport', 'd': j, 'ok': ok2}
        if ok2:
            ok3, v = attempt(lambda: values(r))
            e.update(v if ok3 else {'ok': False, 'err': v})
        else:
            e['err'] = r
        events.append(e)
    return {'events': events}


def import_case(rng):
    n = rng.randint(1, 4)
    nb = rng.randint(0, n)
    plain = rng.random() < .5
    post = {}
    if not plain:
        post = {b: rng.randint(0, 1) for b in range(nb) if rng.random() < .4}
        c = TkCircuit(n, nb, post_selection=dict(post), scalar=rng.choice([1, .5, 4]))
    else:
        c = tk.Circuit(n, nb)
    for _ in range(rng.randint(1, 7)):
        qs = rng.sample(range(n), min(n, rng.choice([1, 1, 2, 2, 3])))
        ph = rng.randrange(0, 8) / 2
        if len(qs) == 1:
            g = rng.choice(['H', 'X', 'Y', 'Z', 'S', 'Sdg', 'T', 'Tdg', 'Rx', 'Ry', 'Rz'])
        elif len(qs) == 2:
            g = rng.choice(['CX', 'CY', 'CZ', 'CRx', 'CRy', 'CRz', 'SWAP'])
        else:
            g = 'CCX'
        if 'R' in g:
            getattr(c, g)(ph, *qs)
        else:
            getattr(c, g)(*qs)
    for b, q in enumerate(rng.sample(range(n), nb)):
        c.Measure(q, b)
    p = project(c)
    ok, r = attempt(lambda: from_tk(c))
    e = {'op': 'import', 't': p, 'ok': ok}
    if ok:
        ok2, v = attempt(lambda: values(r))
        e.update(v if ok2 else {'ok': False, 'err': v})
    else:
        e['err'] = r
    return {'events': [e]}


def placed_gate(rng, name, qs, n):
    """One gate in one place, between layers that tell all qubits apart."""
    c = tk.Circuit(n, n)
    for q in range(n):
        c.H(q) if rng.random() < .4 else c.X(q) if rng.random() < .5 else None
    for q in range(n - 1):
        if rng.random() < .3:
            c.CX(q, q + 1)
    if name == 'CCZ':
        from pytket import OpType
        c.add_gate(OpType.CCZ, list(qs)) if hasattr(OpType, 'CCZ') else c.CCX(*qs)
    elif 'R' in name:
        getattr(c, name)(rng.randrange(1, 8) / 2, *qs)
    else:
        getattr(c, name)(*qs)
    for q in range(n):
        if rng.random() < .4:
            c.H(q)
    for q in range(n):
        c.Measure(q, q)
    p = project(c)
    ok, r = attempt(lambda: from_tk(c))
    e = {'op': 'import', 't': p, 'ok': ok}
    if ok:
        ok2, v = attempt(lambda: values(r))
        e.update(v if ok2 else {'ok': False, 'err': v})
    else:
        e['err'] = r
    return {'events': [e]}


def placed(chk):
    """Every gate at every ordered choice of qubits of four."""
    import itertools
    out = []
    for rep in range(chk.n(1, 4)):
        for name in ['CX', 'CY', 'CZ', 'CRx', 'CRy', 'CRz', 'SWAP']:
            for qs in itertools.permutations(range(4), 2):
                for _ in range(3 if name == 'SWAP' else 1):
                    out.append(placed_gate(chk.rng, name, qs, 4))
        for qs in itertools.permutations(range(4), 3):
            out.append(placed_gate(chk.rng, 'CCX', qs, 4))
    return out


class Handle(int):
    pass


class StubBackend:
    """Returns scripted counts, so that only lambeq's arithmetic is observed."""

    def __init__(self, counts):
        self.counts = counts

    def process_circuits(self, circuits, n_shots=None, seed=None):
        assert len(circuits) == len(self.counts)
        return [Handle(i) for i in range(len(circuits))]

    def get_result(self, h):
        class R:
            def get_counts(_, h=h):
                from collections import Counter
                return Counter({tuple(k): v for k, v in self.counts[int(h)]})
        return R()


def counts_case(rng):
    """Circuit.eval(backend): scripted counts of several circuits in one batch."""
    from lambeq.backend.quantum import Scalar, H, Discard
    ds, counts, events = [], [], []
    for _ in range(rng.randint(1, 3)):
        n = rng.randint(1, 4)
        d = Ket(*[0] * n).to_diagram() >> Id().tensor(*[H.to_diagram()] * n)
        kinds = [rng.choice('mmbd') for _ in range(n)]
        if 'm' not in kinds and 'b' not in kinds:
            kinds[0] = 'm'
        effects = [Bra(rng.randint(0, 1)) if k == 'b' else Measure() if k == 'm' else Discard() for k in kinds]
        d = d >> Id().tensor(*[e.to_diagram() for e in effects])
        sc = rng.choice([1, 2, 4])
        if sc > 1:
            d = d @ Scalar(float(sc) ** .5)
        nb = sum(k in 'mb' for k in kinds)
        total = 1000
        strings = [[(x >> (nb - 1 - i)) & 1 for i in range(nb)] for x in range(2 ** nb)]
        cuts = sorted(rng.randint(0, total) for _ in range(len(strings) - 1))
        vals = [b - a for a, b in zip([0, *cuts], [*cuts, total])]
        cs = [[s, v] for s, v in zip(strings, vals) if v]
        rng.shuffle(cs)
        ds.append(d)
        counts.append(cs)
        events.append({'op': 'counts', 'nb': nb, 'total': total, 'counts': cs, 'sc': sc,
                       # how the bits are post-selected is the export's choice, judged above
                       'post': [[int(i), int(v)] for i, v in to_tk(d).post_selection.items()]})
    ok, r = attempt(lambda: ds[0].eval(*ds[1:], backend=StubBackend(counts)))
    if ok and len(ds) == 1:
        r = [r]
    for i, e in enumerate(events):
        e['ok'] = ok
        if ok:
            e['v'] = [round(float(x) * 1e5) for x in np.asarray(r[i]).reshape(-1)]
        else:
            e['err'] = r
    return {'events': events}


KNOWN_BITSWAP = 'export:ValueError:swap of bits together with a post-selection'


def known(case, clauses):
    """The listed finding: a refusal with ValueError, and nothing else wrong, of a
    circuit with both a swap of classical bits and a post-selection."""
    e = case['events'][0]
    if clauses == ['export:refused'] and e.get('err') == 'ValueError':
        bs = [y['b'] for y in e['d']['layers']]
        if any(b['k'] == 'swap' and b['d'] == ['b', 'b'] for b in bs) and any(b['k'] == 'bra' for b in bs):
            return KNOWN_BITSWAP
    return None


def known_case():
    from lambeq.backend.quantum import Swap
    d = Ket(0, 0, 0) >> Id(qubit) @ Bra(0) @ Id(qubit) >> Measure() @ Measure() >> Swap(bit, bit)
    ok, t = attempt(lambda: to_tk(d))
    e = {'op': 'export', 'd': qgen.diagram(d), 'ok': ok}
    e.update({'t': project(t)} if ok else {'err': t})
    return {'events': [e]}


def run(chk):
    rng = chk.rng
    chk.model('P06Model')
    chk.conform('P07Trace', [known_case()] + [export_case(rng) for _ in range(chk.n(500, 6000))],
                label='exports', keyf=known)
    chk.conform('P07Trace', [import_case(rng) for _ in range(chk.n(300, 3000))], label='imports')
    chk.conform('P07Trace', placed(chk), label='every gate in every place')
    chk.conform('P07Trace', [counts_case(rng) for _ in range(chk.n(150, 1500))], label='backend counts')


if __name__ == '__main__':
    main('P07', run)

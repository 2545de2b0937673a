"""Random lambeq circuits and their projection for spec/Quantum.tla."""
import math
import numpy as np
from lambeq.backend import quantum as Q
from lambeq.backend.quantum import (Bit, Bra, Box, Controlled, Daggered, Diagram,
                                    Discard, Encode, Id, Ket, Layer, Measure,
                                    MixedState, Rotation, Rx, Ry, Rz, Scalar,
                                    Sqrt, Swap, Ty, bit, qubit)

from lambeq.backend.symbol import Symbol

NAMED = [Q.H, Q.X, Q.Y, Q.Z, Q.S, Q.T]
R2 = 2 ** .5
# ring elements (v, k) and the numbers they stand for
SCALARS = [((1, 0, 0, 0), 2, .5), ((2, 0, 0, 0), 0, 2), ((0, 0, 1, 0), 0, 1j),
           ((-1, 0, 0, 0), 0, -1.), ((1, 0, 1, 0), 0, 1 + 1j), ((1, 0, -1, 0), 2, .5 - .5j)]
SQRTS = [((0, 1, 0, -1), 0, 2), ((2, 0, 0, 0), 0, 4), ((1, 0, 0, 0), 1, .5)]


def w(t):
    return ['q' if o == qubit else 'b' for o in t]


ENV = {}    # values of symbols, when circuits carry symbols
SYMBOLIC = False    # leave symbols in rotations (s, m = twice the factor)


def quarter(phase):
    if isinstance(phase, Symbol):
        phase = phase.scale * ENV[phase.name]
    p = round(float(phase) * 4)
    assert abs(float(phase) * 4 - p) < 1e-6, phase
    return p


def scal(x):
    for v, k, y in SCALARS:
        if abs(complex(x) - complex(y)) < 1e-9:
            return list(v), k
    for v, k, y in SQRTS:
        if abs(complex(x) - y ** .5) < 1e-9:
            return list(v), k
    x = complex(x)   # dyadic Gaussian
    for k in range(0, 13, 2):
        s = x * 2 ** (k // 2)
        if abs(s.real - round(s.real)) < 1e-9 and abs(s.imag - round(s.imag)) < 1e-9:
            return [round(s.real), 0, round(s.imag), 0], k
        s = s * R2
        if abs(s.real - round(s.real)) < 1e-9 and abs(s.imag - round(s.imag)) < 1e-9:
            return [round(s.real), 0, round(s.imag), 0], k + 1
    raise ValueError(x)


def box(b, data=None):
    """The JSON the specification reads for one box."""
    o = {'d': w(b.dom), 'c': w(b.cod)}
    if isinstance(b, Daggered):
        return {**o, 'k': 'dag', 'f': [box(b.box, data)]}
    if isinstance(b, Controlled):
        return {**o, 'k': 'ctrl', 'dist': int(b.distance), 'f': [box(b.controlled, data)]}
    for cls, k in ((Measure, 'measure'), (Encode, 'encode'), (Discard, 'discard'),
                   (MixedState, 'mixed'), (Swap, 'swap')):
        if isinstance(b, cls):
            return {**o, 'k': k}
    for cls, k in ((Ket, 'ket'), (Bra, 'bra'), (Bit, 'bit')):
        if isinstance(b, cls):
            return {**o, 'k': k, 'n': int(b.bit)}
    if isinstance(b, Rotation) and SYMBOLIC:
        y = isinstance(b.phase, Symbol)
        return {**o, 'k': 'rot', 'g': type(b).__name__, 's': b.phase.name if y else '', 'm': round(b.phase.scale * 2) if y else 0,
                'ph': 0 if y else quarter(b.phase) % 8}
    if isinstance(b, Rotation):
        return {**o, 'k': 'rot', 'g': type(b).__name__, 'ph': quarter(b.phase) % 8}
    if isinstance(b, Sqrt):
        for v, k, y in SQRTS:
            if abs(b.data - y) < 1e-9:
                return {**o, 'k': 'scalar', 'v': list(v), 'kk': k}
        v, k = scal(complex(b.data) ** .5)
        return {**o, 'k': 'scalar', 'v': v, 'kk': k}
    if isinstance(b, Scalar):
        v, k = scal(b.data)
        return {**o, 'k': 'scalar', 'v': v, 'kk': k}
    if b.name in ('H', 'X', 'Y', 'Z', 'S', 'T'):
        return {**o, 'k': 'gate', 'g': b.name, 'z': int(b.z) % 2}
    if data and b.name in data:
        return {**o, 'k': 'unit', 'v': data[b.name], 'kk': 0, 'z': int(b.z) % 2}
    raise ValueError(f'unknown box {b!r}')


def diagram(d, data=None):
    return {'dom': w(d.dom), 'cod': w(d.cod),
            'layers': [{'L': w(y.left), 'b': box(y.box, data), 'R': w(y.right)} for y in d.layers]}


def fixed(x):
    x = complex(x)
    lim = 20000.
    if not (abs(x.real) < lim and abs(x.imag) < lim):
        return [2 ** 31 - 1 if x.real == x.real else -2 ** 31 + 1, 0]
    return [round(x.real * 1e5), round(x.imag * 1e5)]


class Gen:
    def __init__(self, rng, units=False, mixed=False, bits=False, rots=True, scalars=True,
                 maxq=4, multi=True, maxdist=2, dag=True, rot_z=True, bitswap=True):
        self.rng, self.units, self.mixed, self.bits = rng, units, mixed, bits
        self.rots, self.scalars, self.maxq, self.multi = rots, scalars, maxq, multi
        self.maxdist, self.dag, self.rot_z = maxdist, dag, rot_z
        self.bitswap = bitswap
        self.data, self.n = {}, 0

    def one_qubit(self):
        r = self.rng
        if self.rots and r.random() < .45:
            return r.choice([Rx, Ry, Rz])(r.randrange(-5, 9) / 4)
        g = r.choice(NAMED)
        if self.dag and r.random() < .25:
            g = g.dagger()
        if self.rot_z and r.random() < .15:
            g = g.rotate(r.choice([1, -1]))
        return g

    def controlled(self, width):
        r = self.rng
        g = self.one_qubit()
        for _ in range(r.choice([1, 1, 1, 2, 2]) if self.multi else 1):
            room = width - len(g.dom)
            if room <= 0:
                break
            d = r.randint(1, min(room, self.maxdist)) * r.choice([1, -1])
            g = Controlled(g, d)
        if self.dag and r.random() < .2:
            g = g.dagger()
        if self.rot_z and r.random() < .1:
            g = g.rotate(1)
        return g

    def unit(self, n, m):
        self.n += 1
        name = f'U{self.n}'
        vals = [(self.rng.choice([0, 1, -1, 1]), self.rng.choice([0, 0, 1, -1]))
                for _ in range(2 ** (n + m))]
        self.data[name] = [[a, 0, b, 0] for a, b in vals]
        arr = np.array([complex(*v) for v in vals]).reshape([2] * (n + m))
        b = Box(name, qubit ** n, qubit ** m, arr)
        return b

    def step(self, cur):
        """A (box, offset) that applies to the type cur."""
        r, n = self.rng, len(cur)
        objs = [*cur]
        for _ in range(40):
            x = r.random()
            if x < .3 and n:
                i = r.randrange(n)
                if objs[i] == qubit:
                    return self.one_qubit(), i
            elif x < .55 and n > 1:
                i = r.randrange(n - 1)
                k = i
                while k < n and objs[k] == qubit:
                    k += 1
                if k - i > 1:
                    return self.controlled(min(k - i, 4)), i
            elif x < .63 and n > 1:
                i = r.randrange(n - 1)
                if not (self.mixed and self.bitswap) and (objs[i] != qubit or objs[i + 1] != qubit):
                    continue
                return Swap(objs[i], objs[i + 1]), i
            elif x < .72 and n < self.maxq:
                return Ket(r.randint(0, 1)), r.randint(0, n)
            elif x < .78 and n:
                i = r.randrange(n)
                if objs[i] == qubit:
                    return Bra(r.randint(0, 1)), i
            elif x < .82 and self.scalars:
                if r.random() < .5:
                    return Scalar(r.choice(SCALARS)[2]), r.randint(0, n)
                return Sqrt(r.choice(SQRTS)[2]), r.randint(0, n)
            elif x < .87 and self.units:
                a = r.randint(0, min(2, n))
                i = r.randint(0, n - a)
                if all(o == qubit for o in objs[i:i + a]):
                    b = r.randint(0, 2)
                    if n - a + b <= self.maxq:
                        if r.random() < .3:
                            return self.unit(b, a).dagger(), i
                        if r.random() < .2:
                            return self.unit(a, b).rotate(1), i
                        return self.unit(a, b), i
            elif x < .94 and self.mixed and n:
                i = r.randrange(n)
                if objs[i] == qubit:
                    return r.choice([Measure, Measure, Discard])(), i
                if self.bits:
                    return Encode(), i
            elif x < .97 and self.mixed and self.bits and n < self.maxq:
                return r.choice([MixedState(), Bit(r.randint(0, 1))]), r.randint(0, n)
        return Scalar(-1.), 0

    def diagram(self, dom=None, n=6):
        cur = dom if dom is not None else qubit ** self.rng.randint(0, 2)
        dom0, layers = cur, []
        for _ in range(n):
            b, i = self.step(cur)
            ly = Layer(left=cur[:i], box=b, right=cur[i + len(b.dom):])
            layers.append(ly)
            cur = ly.cod
        return Diagram(dom=dom0, cod=cur, layers=layers)

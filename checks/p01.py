"""P01: histories of diagram operations, judged by spec/P01Trace.tla."""
import itertools
import random
import sys
sys.path.insert(0, '/verif')
from lambeq.backend.grammar import (Box, Cap, Cup, Daggered, Diagram, Frame, Id,
                                    Spider, Swap, Ty, Word)
from vlib import gen, proj
from vlib.core import attempt, main


class History:
    """Runs operations on the real code and records each answer in full."""

    def __init__(self):
        self.pool, self.events = [], []

    def rec(self, op, a, fn, kind='d', keep=True):
        def call():
            r = fn()
            if r is NotImplemented:
                raise TypeError('NotImplemented')
            return (r, proj.diagram(r.to_diagram()) if kind == 'd' else r)
        ok, r = attempt(call)
        ev = {'op': op, 'a': a, 'ok': ok}
        if ok:
            ev[kind] = r[1]
            if kind == 'd':
                self.pool.append(r[0])
        else:
            ev['err'] = r
        self.events.append(ev)
        return ok

    def P(self, i):
        return self.pool[i - 1]

    def D(self, i):
        return self.pool[i - 1].to_diagram()

    # -- operations -----------------------------------------------------
    def given(self, d):
        self.rec('given', [], lambda: d)

    def do(self, op, *a):
        P, D = self.P, self.D
        ty = proj.build_ty
        cls = Diagram
        f = {
            'id': lambda: cls.id(ty(a[0])),
            'mkbox': lambda: Box(a[0], ty(a[1]), ty(a[2]), a[3]),
            'mkword': lambda: Word(a[0], ty(a[1]), a[2]) if a[2] else Word(a[0], ty(a[1])),
            'then': lambda: P(a[0]) >> P(a[1]),
            'then3': lambda: D(a[0]).then(P(a[1]), P(a[2])),
            'tensor': lambda: P(a[0]) @ P(a[1]),
            'tensor3': lambda: D(a[0]).tensor(P(a[1]), P(a[2])),
            'tensorty': lambda: P(a[0]) @ ty(a[1]),
            'tytensor': lambda: ty(a[1]) @ P(a[0]),
            'then_at': lambda: D(a[0]).then_at(P(a[1]), a[2]),
            'rotate': lambda: (P(a[0]).l if a[1] == -1 else P(a[0]).r if a[1] == 1
                               else P(a[0]).rotate(a[1])),
            'dagger': lambda: P(a[0]).dagger(),
            'transpose': lambda: D(a[0]).transpose(left=a[1]),
            'curry': lambda: D(a[0]).curry(a[1], left=a[2]),
            'slice': lambda: D(a[0])[a[1]:a[2]],
            'revslice': lambda: D(a[0])[::-1],
            'partrev': lambda: D(a[0])[a[1]:(a[2] if a[2] >= 0 else None):-1],
            'index': lambda: D(a[0])[a[1]],
            'caps': lambda: (cls.caps if random.random() < .5 else Cap)(ty(a[0]), ty(a[1]), a[2]),
            'cups': lambda: (cls.cups if random.random() < .5 else Cup)(ty(a[0]), ty(a[1]), a[2]),
            'cap_to_right': lambda: Cap.to_right(ty(a[0]), is_reversed=a[1]),
            'cap_to_left': lambda: Cap.to_left(ty(a[0]), is_reversed=a[1]),
            'cup_to_right': lambda: Cup.to_right(ty(a[0]), is_reversed=a[1]),
            'cup_to_left': lambda: Cup.to_left(ty(a[0]), is_reversed=a[1]),
            'swap': lambda: cls.swap(ty(a[0]), ty(a[1])),
            'spider': lambda: Spider(ty(a[0]), a[1], a[2]),
            'permutation': lambda: cls.permutation(ty(a[0]), a[1]),
            'permuted': lambda: D(a[0]).permuted(a[1]),
            'pregroup': lambda: cls.create_pregroup_diagram(
                [Word(w, ty(t)) for w, t in a[0]], [(Cup, i, j) for i, j in a[1]]),
            'fa': lambda: cls.fa(ty(a[0]), ty(a[1])),
            'ba': lambda: cls.ba(ty(a[0]), ty(a[1])),
            'fc': lambda: cls.fc(ty(a[0]), ty(a[1]), ty(a[2])),
            'bc': lambda: cls.bc(ty(a[0]), ty(a[1]), ty(a[2])),
            'fx': lambda: cls.fx(ty(a[0]), ty(a[1]), ty(a[2])),
            'bx': lambda: cls.bx(ty(a[0]), ty(a[1]), ty(a[2])),
        }[op]
        return self.rec(op, list(a), f)

    def val(self, op, *a):
        P, D = self.P, self.D
        ty = lambda j: proj.build_ty(j)
        f = {
            'obs': lambda: {'dom': proj.ty(P(a[0]).dom), 'cod': proj.ty(P(a[0]).cod),
                            'n': len(D(a[0])), 'is_id': D(a[0]).is_id,
                            'boxes': [proj.box(b) for b in D(a[0]).boxes],
                            'offsets': list(D(a[0]).offsets)},
            'eq': lambda: {'eq': D(a[0]) == D(a[1]),
                           'hash': hash(D(a[0])) == hash(D(a[1]))},
            'is_pregroup': lambda: bool(D(a[0]).is_pregroup),
            'pool': lambda: [proj.diagram(x.to_diagram()) for x in self.pool],
            'ty_rotate': lambda: proj.ty({-1: lambda t: t.l, 1: lambda t: t.r}.get(
                a[1], lambda t: t.rotate(a[1]))(ty(a[0]))),
            'ty_tensor': lambda: proj.ty(ty(a[0]) @ ty(a[1])),
            'ty_over': lambda: proj.ty(ty(a[0]) << ty(a[1])),
            'ty_under': lambda: proj.ty(ty(a[0]) >> ty(a[1])),
            'ty_pow': lambda: proj.ty(ty(a[0]) ** a[1]),
            'ty_slice': lambda: proj.ty(ty(a[0])[a[1]:a[2]]),
            'ty_rev': lambda: proj.ty(ty(a[0])[::-1]),
            'ty_unwind': lambda: proj.ty(ty(a[0]).unwind()),
            'ty_count': lambda: ty(a[0]).count(ty(a[1])),
            'ty_replace': lambda: proj.ty(ty(a[0]).replace(ty(a[1]), a[2])),
            'ty_insert': lambda: proj.ty(ty(a[0]).insert(ty(a[1]), a[2])),
        }[op]
        return self.rec(op, list(a), f, kind='v')

    def end(self):
        self.val('pool')
        return {'events': self.events}


def T(*names):
    out = []
    for x in names:
        out.append([x.rstrip('<>'), x.count('>') - x.count('<')])
    return out


N, S = Ty('n'), Ty('s')


def generators():
    """Small generator set: every kind of box, by direct construction."""
    f = Box('f', N, S)
    out = [
        Id(Ty()), Id(N), Id(S @ N),
        f, Box('g', S, N @ N), Box('h', N @ S, Ty()), Box('k', N, S, 1),
        Word('w', N), Word('v', N.r @ S @ N.l), Daggered(f), Daggered(Word('w', N)),
        Cap(N, N.l), Cap(N.r, N), Cup(N, N.r), Cup(N.l, N),
        Cap(N, N.r, is_reversed=True), Cup(N, N.l, is_reversed=True),
        Swap(N, S), Spider(N, 2, 1), Spider(S, 0, 2), Spider(N, 1, 0),
    ]
    L = gen.lay
    out.append(gen.raw(Ty(), [L(Ty(), Word('a', N), Ty()),
                              L(N, Word('b', N.r @ S), Ty()),
                              L(Ty(), Cup(N, N.r), S)]))
    out.append(gen.raw(N @ S, [L(N, Box('g', S, N @ N), Ty()),
                               L(Ty(), Swap(N, N), N),
                               L(N, Box('f', N, S), N),
                               L(N @ S, Spider(N, 1, 2), Ty())]))
    fr = Frame('F', N, S, components=[f.to_diagram(), Diagram.id(N)])
    out.append(fr)
    return out


def all_pairs(chk):
    gens = generators()
    cases = []
    for g in gens:
        h = History()
        h.given(g)
        for z in (-3, -2, -1, 0, 1, 2, 3):
            h.do('rotate', 1, z)
        h.do('dagger', 1)
        k = len(h.pool)
        h.do('dagger', k)
        h.val('eq', 1, len(h.pool))
        h.do('rotate', 4, 1)      # (.l).r
        h.val('eq', 1, len(h.pool))
        h.do('rotate', 6, -1)
        h.val('eq', 1, len(h.pool))
        for left in (False, True):
            h.do('transpose', 1, left)
        d = g.to_diagram()
        for n in range(1, len(d.dom) + 1):
            for left in (False, True):
                h.do('curry', 1, n, left)
        m = len(d)
        for a in range(-m - 1, m + 2):
            for b in range(-m - 1, m + 2):
                h.do('slice', 1, a, b)
            h.do('index', 1, a)
        h.do('revslice', 1)
        for hi in range(m):
            for lo in range(-1, hi):
                h.do('partrev', 1, hi, lo)
        h.val('obs', 1)
        for i in range(1, min(12, len(h.pool))):
            h.val('is_pregroup', i)
        cases.append(h.end())
    for a, b in itertools.product(gens, gens):
        h = History()
        h.given(a)
        h.given(b)
        h.do('then', 1, 2)
        h.do('tensor', 1, 2)
        k = len(h.pool)
        h.do('rotate', k, 1)
        h.do('rotate', k, -1)
        h.do('dagger', k)
        h.val('eq', 1, 2)
        for i in range(len(a.cod) + 1):
            h.do('then_at', 1, 2, i)
        h.val('obs', k)
        cases.append(h.end())
    return cases


def ctor_cases(chk):
    cases = []
    tys = [[]] + [T(*x) for x in [
        ('n',), ('n<',), ('n>',), ('n>>',), ('n', 's'), ('n>', 's'), ('s', 'n<'),
        ('n', 'n'), ('n', 's', 'n<'), ('s>', 'n', 'p<<'), ('n', 's', 'p', 'n')]]
    rot = lambda t, z: proj.ty(proj.build_ty(t).rotate(0)) if z == 0 else [
        [n, k + z] for n, k in (t[::-1] if z % 2 else t)]
    for t in tys:
        h = History()
        for z in (-2, -1, 0, 1, 2):
            u = rot(t, z)
            for rev in (False, True):
                if t or z:   # cups of the empty type are the empty diagram
                    h.do('caps', t, u, rev)
                    h.do('cups', t, u, rev)
        for op in ('cap_to_right', 'cap_to_left', 'cup_to_right', 'cup_to_left'):
            for rev in (False, True):
                h.do(op, t, rev)
        h.val('ty_rotate', t, 1)
        for z in range(-3, 4):
            h.val('ty_rotate', t, z)
        for k in range(0, 4):
            h.val('ty_pow', t, k)
        for a in range(-2, 4):
            for b in range(-2, 5):
                h.val('ty_slice', t, a, b)
        h.val('ty_rev', t)
        for a in range(3):
            for b in range(3):
                if t:
                    h.do('spider', t, a, b)
        if len(t) == 1:
            h.val('ty_unwind', t)
        for n in range(len(t) + 1):
            h.val('ty_insert', t, T('p', 'q'), n)
            h.val('ty_insert', t, T('p'), n)
            if n < len(t):
                h.val('ty_replace', t, T('p', 'q'), n)
                h.val('ty_replace', t, T('p'), n)
        h.val('ty_count', t, T('n'))
        h.val('ty_count', t, T('n<'))
        cases.append(h.end())
        for u in tys:
            h = History()
            h.do('swap', t, u)
            for op in ('ty_tensor', 'ty_over', 'ty_under'):
                h.val(op, t, u)
            for op in ('fa', 'ba'):
                h.do(op, t, u)
            v = chk.rng.choice(tys)
            for op in ('fc', 'bc', 'fx', 'bx'):
                h.do(op, t, u, v)
            cases.append(h.end())
    for n in range(0, 5 if not chk.thorough else 6):
        t = T('n', 's', 'p>', 'n<', 'q')[:n]
        h = History()
        for p in itertools.permutations(range(n)):
            h.do('permutation', t, list(p))
        if n:
            h.do('permutation', t, [0] * n if n > 1 else [1])
            h.do('permutation', t, list(range(n)) + [n])
            h.do('permutation', t, list(range(n - 1)))
        cases.append(h.end())
    return cases


def random_history(rng, steps):
    h = History()
    for _ in range(3):
        h.given(gen.diagram(rng, n_layers=rng.randint(0, 5), max_width=5,
                            z_boxes=(0, 0, 1, -1), dagger=.2))
    h.do('mkbox', 'b', proj.ty(gen.ty(rng, 0, 2)), proj.ty(gen.ty(rng, 0, 2)), rng.choice([0, 0, 1, -2]))
    h.do('mkword', 'word', proj.ty(gen.ty(rng, 1, 3)), 0)
    for _ in range(steps):
        n = len(h.pool)
        small = [i for i in range(1, n + 1) if len(h.D(i)) <= 14
                 and len(h.P(i).dom) <= 7 and len(h.P(i).cod) <= 7]
        i = rng.choice(small)
        j = rng.choice(small)
        k = rng.choice(small)
        op = rng.choice(['then', 'then', 'then3', 'tensor', 'tensor', 'tensor3', 'rotate', 'rotate',
                         'dagger', 'dagger', 'transpose', 'curry', 'slice', 'index',
                         'permuted', 'then_at', 'then_at', 'tensorty', 'tytensor',
                         'obs', 'eq', 'revslice', 'partrev', 'pool', 'fit', 'fit'])
        cod = h.P(i).cod
        if op in ('then', 'tensor', 'eq'):
            if op == 'then' and rng.random() < .8:
                m = [x for x in small if h.P(x).dom == cod]
                if m:
                    j = rng.choice(m)
                else:
                    op = 'fit'
            if op in ('then', 'tensor'):
                h.do(op, i, j)
                continue
            elif op == 'eq':
                h.val('eq', i, j)
                continue
        if op == 'fit':   # a fresh diagram that fits, then compose
            d = gen.diagram(rng, dom=cod, n_layers=rng.randint(1, 4), max_width=6)
            h.given(d)
            h.do('then', i, len(h.pool))
        elif op in ('then3', 'tensor3'):
            h.do(op, i, j, k)
        elif op == 'rotate':
            h.do(op, i, rng.choice([-3, -2, -1, -1, 1, 1, 2]))
        elif op in ('dagger', 'revslice'):
            h.do(op, i)
        elif op == 'transpose':
            h.do(op, i, rng.random() < .5)
        elif op == 'curry':
            if len(h.P(i).dom):
                h.do(op, i, rng.randint(1, len(h.P(i).dom)), rng.random() < .5)
        elif op == 'slice':
            m = len(h.D(i))
            h.do(op, i, rng.randint(-m - 1, m + 1), rng.randint(-m - 1, m + 1))
        elif op == 'partrev':
            m = len(h.D(i))
            if m >= 2:
                hi = rng.randint(0, m - 1)
                h.do(op, i, hi, rng.randint(-1, hi - 1) if hi else -1)
        elif op == 'index':
            m = len(h.D(i))
            h.do(op, i, rng.randint(-m - 1, m + 1))
        elif op == 'permuted':
            p = list(range(len(cod)))
            rng.shuffle(p)
            h.do(op, i, p)
        elif op == 'then_at':
            m = [(x, o) for x in small for o in range(len(cod) + 1)
                 if cod[o:o + len(h.P(x).dom)] == h.P(x).dom]
            if m and rng.random() < .8:
                j, o = rng.choice(m)
            else:
                o = rng.randint(0, len(cod))
            h.do(op, i, j, o)
        elif op in ('tensorty', 'tytensor'):
            h.do(op, i, proj.ty(gen.ty(rng, 0, 2)))
        elif op == 'obs':
            h.val('obs', i)
        elif op == 'pool':
            h.val('pool')
    return h.end()


def pregroup_history(rng):
    h = History()
    words, types = [], []
    for i in range(rng.randint(1, 5)):
        t = [[rng.choice(['n', 's', 'n', 'p']), rng.choice([-1, 0, 0, 1])]
             for _ in range(rng.randint(1, 4))]
        words.append([f'w{rng.randint(1, 9)}', t])
        types += t
    scan, cups = list(range(len(types))), []
    while True:
        m = [k for k in range(len(scan) - 1)
             if types[scan[k]][0] == types[scan[k + 1]][0]
             and types[scan[k]][1] + 1 == types[scan[k + 1]][1]]
        if not m or rng.random() < .1:
            break
        k = rng.choice(m)
        cups.append([scan[k], scan[k + 1]])
        del scan[k:k + 2]
    # innermost pairs first, as the documentation's examples do
    h.do('pregroup', words, cups)
    if h.pool:
        h.val('is_pregroup', 1)
        h.do('rotate', 1, 1)
        h.do('dagger', 1)
    return h.end()


def run(chk):
    random.seed(chk.seed)
    chk.model('P01Laws', cfg='P01LawsThorough.cfg' if chk.thorough else None)
    chk.conform('P01Trace', all_pairs(chk), label='pairs')
    chk.conform('P01Trace', ctor_cases(chk), label='constructors')
    n = chk.n(300, 4000)
    chk.conform('P01Trace', [random_history(chk.rng, 14) for _ in range(n)],
                label='histories')
    chk.conform('P01Trace', [pregroup_history(chk.rng) for _ in range(chk.n(300, 3000))],
                label='pregroup diagrams')


if __name__ == '__main__':
    main('P01', run)

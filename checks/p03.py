"""P03: call histories of functor objects, judged by spec/P03Trace.tla."""
import sys
sys.path.insert(0, '/verif')
from lambeq.backend.grammar import (Box, Cap, Cup, Diagram, Frame, Functor, Id,
                                    Spider, Swap, Ty, Word, grammar)
from vlib import gen, proj
from vlib.core import attempt, main


def rot(t, z):
    return [[n, k + z] for n, k in (t[::-1] if z % 2 else t)]


def fty(obm, t):
    return [o for n, z in t for o in rot(obm[n], z)]


SIG = {'f': ([['n', 0]], [['s', 0]]), 'g': ([['s', 0], ['n', 0]], [['n', 0], ['n', 0]]),
       'h': ([['p', 1]], []), 'k': ([], [['n', -1], ['p', 0]]),
       'w': ([], [['n', 0]]), 'v': ([], [['n', 1], ['s', 0], ['n', -1]])}
WORDS = {'w', 'v'}


def src_box(rng, name):
    d, c = (proj.build_ty(t) for t in SIG[name])
    b = Word(name, c) if name in WORDS else Box(name, d, c)
    if rng.random() < .35:
        b = b.rotate(rng.choice([-2, -1, 1, 2]))
    if rng.random() < .25:
        b = b.dagger()
    return b


def src_frame(rng, depth=1):
    comps = [src_diagram(rng, rng.randint(0, 2), frames=0)
             if rng.random() < .7 or not depth
             else src_frame(rng, depth - 1).to_diagram()
             for _ in range(rng.randint(0, 2))]
    fr = Frame(rng.choice(['F', 'G']), gen.ty(rng, 0, 2), gen.ty(rng, 0, 2), components=comps)
    if rng.random() < .3:
        fr = fr.rotate(rng.choice([-1, 1, 2]))
    if rng.random() < .3:
        fr = fr.dagger()
    return fr


def src_diagram(rng, n, frames=.1):
    """A random diagram over the fixed signature, by direct construction."""
    cur = gen.ty(rng, 0, 3)
    dom, layers = cur, []
    for _ in range(n):
        objs, w = [*cur], len(cur)
        for _ in range(20):
            r = rng.random()
            if r < frames:
                b = src_frame(rng)
            elif r < .5:
                b = src_box(rng, rng.choice(list(SIG)))
            elif r < .62 and w > 1:
                i = rng.randint(0, w - 2)
                b = Swap(objs[i], objs[i + 1])
            elif r < .74:
                a = gen.atom(rng)
                rev = rng.random() < .4
                b = Cap(a, a.r if rev else a.l, is_reversed=rev)
            elif r < .88:
                m = [(x, y) for x, y in zip(objs, objs[1:]) if x.r == y or x.l == y]
                if not m:
                    continue
                x, y = rng.choice(m)
                b = Cup(x, y, is_reversed=x.r != y)
            else:
                a = rng.choice(objs) if objs else gen.atom(rng)
                b = Spider(a, rng.randint(0, 2), rng.randint(1, 3))
            offs = [i for i in range(w - len(b.dom) + 1) if cur[i:i + len(b.dom)] == b.dom]
            if offs and w - len(b.dom) + len(b.cod) <= 6:
                i = rng.choice(offs)
                ly = gen.lay(cur[:i], b, cur[i + len(b.dom):])
                layers.append(ly)
                cur = ly.cod
                break
    return gen.raw(dom, layers)


def image(rng, name, dom, cod):
    """The image of a generator: a diagram from F(dom) to F(cod)."""
    D, C = proj.build_ty(dom), proj.build_ty(cod)
    if rng.random() < .5:
        return Box(name + '_', D, C) if name not in WORDS else Word(name + '_', C)
    d = gen.diagram(rng, dom=D, n_layers=rng.randint(0, 2), max_width=5,
                    names=[name + '1', name + '2'])
    last = Box(name + 'x', d.cod, C)
    return gen.raw(D, list(d.layers) + [gen.lay(Ty(), last, Ty())])


def case(rng, steps):
    tgt = [['a', 0], ['b', 0], ['a', 1], ['b', -1], ['c', 0]]
    obm = {x: [rng.choice(tgt) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))]
           for x in 'nsp'}
    arm, imgs = {}, {}
    for name, (d, c) in SIG.items():
        fd, fc = fty(obm, d), fty(obm, c)
        if rng.random() < .12 and name not in WORDS:   # an ill-typed image
            fc = fc + [['zz', 0]] if rng.random() < .5 else fc[1:] if fc else [['zz', 0]]
        imgs[name] = image(rng, name, fd, fc)
        arm[name] = proj.diagram(imgs[name].to_diagram())

    def ar(F, b):
        if isinstance(b, Frame):
            return Frame(b.name, F(b.dom), F(b.cod), components=[F(x) for x in b.components])
        return proj_copy(imgs[b.name])

    def proj_copy(x):
        # a new object each time, so that only the functor can share results
        if isinstance(x, Diagram):
            return Diagram(dom=x.dom, cod=x.cod, layers=list(x.layers))
        return x

    F = Functor(grammar, ob=lambda F, t: proj.build_ty(obm[t.name]), ar=ar)
    events, asked, results = [], [], []
    for _ in range(steps):
        r = rng.random()
        if r < .12:
            t = gen.ty(rng, 0, 4)
            ok, v = attempt(lambda: proj.ty(F(t)))
            events.append({'op': 'ty', 't': proj.ty(t), 'ok': ok, 'v': v})
            continue
        if r < .25 and results:
            # a caller edits an earlier answer in place
            x = rng.choice(results)
            if isinstance(x, Diagram):
                x.layers.reverse()
                del x.layers[1:]
                events.append({'op': 'mutate'})
            continue
        if r < .55 and asked:
            d = rng.choice(asked)
        elif r < .7:
            d = src_box(rng, rng.choice(list(SIG)))
        else:
            d = src_diagram(rng, rng.randint(0, 5))
        asked.append(d)
        pd = proj.diagram(d.to_diagram())
        ok, v = attempt(lambda: F(d))
        ev = {'op': 'diag', 'd': pd, 'ok': ok}
        if ok:
            results.append(v)
            ev['out'] = proj.diagram(v.to_diagram())
        else:
            ev['err'] = v
        events.append(ev)
        if proj.diagram(d.to_diagram()) != pd:
            events.append({'op': 'argument changed'})
    return {'obm': obm, 'arm': arm, 'events': events or [{'op': 'mutate'}]}


def run(chk):
    chk.model('P03Model', cfg='P03ModelThorough.cfg' if chk.thorough else None)
    chk.conform('P03Trace', [case(chk.rng, 14) for _ in range(chk.n(300, 4000))],
                label='functor histories')


if __name__ == '__main__':
    main('P03', run)

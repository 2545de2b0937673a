"""P02: snake removal, normal form, pregroup normal form, swap removal."""
import sys
sys.path.insert(0, '/verif')
from lambeq import RemoveSwapsRewriter
from lambeq.backend.grammar import (Box, Cap, Cup, Diagram, Id, Swap, Ty, Word)
from vlib import gen, proj
from vlib.core import attempt, main


def insert_snakes(rng, d, count):
    """Put `count` snakes on random wires at random heights; the cap and the
    cup of a snake end up separated by the layers in between."""
    for _ in range(count):
        layers = list(d.layers)
        i = rng.randint(0, len(layers))
        cur = layers[i].dom if i < len(layers) else d.cod
        if not len(cur):
            continue
        w = rng.randint(0, len(cur) - 1)
        x = cur[w:w + 1]
        L, R = cur[:w], cur[w + 1:]
        rev = rng.random() < .25
        if rng.random() < .5:   # left snake: cap to the right, cup to the left
            adj = x.l if rev else x.r
            a = gen.lay(L @ x, Cap(adj, x, is_reversed=rev), R)
            b = gen.lay(L, Cup(x, adj, is_reversed=rev), x @ R)
        else:
            adj = x.r if rev else x.l
            a = gen.lay(L, Cap(x, adj, is_reversed=rev), x @ R)
            b = gen.lay(L @ x, Cup(adj, x, is_reversed=rev), R)
        layers[i:i] = [a, b]
        d = gen.raw(d.dom, layers)
        d = shuffle_layers(rng, d, rng.randint(0, 12))
    return d


def shuffle_layers(rng, d, moves):
    """Random interchanges of independent neighbouring layers (own code)."""
    layers = list(d.layers)
    for _ in range(moves):
        if len(layers) < 2:
            break
        i = rng.randint(0, len(layers) - 2)
        a, b = layers[i], layers[i + 1]
        oa, ob = len(a.left), len(b.left)
        if ob >= oa + len(a.box.cod):       # b entirely right of a
            mid = b.left[oa + len(a.box.cod):]
            nb = gen.lay(a.left @ a.box.dom @ mid, b.box, b.right)
            na = gen.lay(a.left, a.box, mid @ b.box.cod @ b.right)
        elif oa >= ob + len(b.box.dom):     # b entirely left of a
            mid = a.left[ob + len(b.box.dom):]
            nb = gen.lay(b.left, b.box, mid @ a.box.dom @ a.right)
            na = gen.lay(b.left @ b.box.cod @ mid, a.box, a.right)
        else:
            continue
        layers[i:i + 2] = [nb, na]
    return gen.raw(d.dom, layers)


def sentence(rng, swaps=True, n_words=None, caps=False):
    """Words with random types, then random cups and swaps."""
    layers, cur = [], Ty()
    for i in range(n_words or rng.randint(1, 5)):
        t = gen.ty(rng, 1, 4, zs=(-1, 0, 0, 1))
        ly = gen.lay(cur, Word(f'w{i}', t), Ty())
        layers.append(ly)
        cur = ly.cod
    for _ in range(rng.randint(2, 12)):
        objs = [*cur]
        cups = [i for i in range(len(objs) - 1) if objs[i].r == objs[i + 1]]
        if cups and rng.random() < .7:
            i = rng.choice(cups)
            b = Cup(objs[i], objs[i + 1])
        elif swaps and len(objs) > 1:
            i = rng.randint(0, len(objs) - 2)
            b = Swap(objs[i], objs[i + 1])
        elif caps and len(objs) < 10 and rng.random() < .3:
            i = rng.randint(0, len(objs))
            a = gen.atom(rng)
            b = Cap(a, a.l)
        else:
            continue
        ly = gen.lay(cur[:i], b, cur[i + len(b.dom):])
        layers.append(ly)
        cur = ly.cod
    return gen.raw(Ty(), layers)


def event(op, d):
    f = {'remove_snakes': lambda x: x.remove_snakes(),
         'remove_snakes_left': lambda x: x.remove_snakes(left=True),
         'normal_form': lambda x: x.normal_form(),
         'normal_form_left': lambda x: x.normal_form(left=True),
         'pregroup_normal_form': lambda x: x.pregroup_normal_form(),
         'remove_swaps': lambda x: RemoveSwapsRewriter()(x)}[op]
    name = {'remove_snakes_left': 'remove_snakes',
            'normal_form_left': 'normal_form'}.get(op, op)
    before = proj.diagram(d)
    ok, r = attempt(lambda: f(d), limit=20)
    ev = {'op': name, 'd': before, 'ok': ok, 'err': '', 'detached': 0}
    if not ok:
        ev['err'] = r
        return ev, None
    ev['out'] = proj.diagram(r)
    ok2, r2 = attempt(lambda: f(r), limit=20)
    ev['again'] = proj.diagram(r2) if ok2 else r2
    if proj.diagram(d) != before:
        ev['again'] = 'the operand was changed'
    return ev, r


def detached(d):
    """1 if the sentence has a cup both of whose ends are on one word."""
    owner, res = [], 0
    for ly in d.layers:
        o = len(ly.left)
        if isinstance(ly.box, Word):
            owner[o:o] = [ly.box.name] * len(ly.box.cod)
        elif isinstance(ly.box, Cup):
            if owner[o] == owner[o + 1]:
                res = 1
            del owner[o:o + 2]
        else:
            owner[o], owner[o + 1] = owner[o + 1], owner[o]
    return res


def run(chk):
    rng = chk.rng
    chk.model('P02Model', cfg='P02ModelThorough.cfg' if chk.thorough else None)
    cases = []
    kinds = ('box', 'box', 'cup', 'cup', 'cap', 'cap', 'word')
    for k in range(chk.n(500, 8000)):
        full = rng.random() < .3
        d = gen.diagram(rng, n_layers=rng.randint(0, 8), max_width=6,
                        namer=gen.Namer(),
                        kinds=kinds + (('swap', 'spider') if full else ()))
        d = insert_snakes(rng, d, rng.randint(0, 3))
        evs = [event(op, d)[0] for op in
               (['remove_snakes', 'normal_form', 'normal_form_left', 'pregroup_normal_form']
                + (['remove_snakes_left'] if k % 5 == 0 else []))]
        cases.append({'events': evs})
    chk.conform('P02Trace', cases, label='normal forms')
    cases = []
    for k in range(chk.n(300, 4000)):
        d = sentence(rng, swaps=rng.random() < .5)
        e1 = [event(op, d)[0] for op in ('pregroup_normal_form', 'remove_snakes')]
        d2 = insert_snakes(rng, d, rng.randint(1, 3))
        e1 += [event(op, d2)[0] for op in ('pregroup_normal_form', 'normal_form')]
        if rng.random() < .3:
            d3 = shuffle_layers(rng, d2, 20)
            e1 += [event(op, d3)[0] for op in ('pregroup_normal_form', 'remove_snakes')]
        cases.append({'events': e1})
    chk.conform('P02Trace', cases, label='sentences')
    cases = []
    for k in range(chk.n(300, 4000)):
        d = sentence(rng, swaps=True)
        ev, _ = event('remove_swaps', d)
        ev['detached'] = detached(d)
        cases.append({'events': [ev]})
    chk.conform('P02Trace', cases, label='swap removal')


if __name__ == '__main__':
    main('P02', run)

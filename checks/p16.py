"""P16: pregroup trees and pregroup diagrams, judged by spec/P16Trace.tla;
the trees come from spec/P16Model.tla."""
import contextlib, io, json, sys
sys.path.insert(0, '/verif')
import p12
from lambeq.backend.grammar import Cap, Cup, Diagram, Layer, Swap, Ty, Word
from lambeq.text2diagram.pregroup_tree import PregroupTreeNode as Node
from lambeq.text2diagram.pregroup_tree_converter import diagram2tree, generate_tree, tree2diagram
from vlib import proj
from vlib.core import attempt, main


def real(tr):
    """The library's tree for a specification tree."""
    rootat = [i for i, x in enumerate(tr) if x['p'] == 0][0]

    def go(i):
        return Node(word=tr[i]['w'], ind=i, typ=proj.build_ty(tr[i]['t']),
                    children=[go(c) for c, x in enumerate(tr) if x['p'] == i + 1])
    return go(rootat)


def shuffled(rng, node):
    """The same tree, children listed in another order."""
    kids = [shuffled(rng, k) for k in node.children]
    rng.shuffle(kids)
    return Node(word=node.word, ind=node.ind, typ=node.typ, children=kids)


def nodes(root):
    out = []

    def go(n, p):
        out.append({'i': n.ind + 1, 'w': n.word, 't': proj.ty(n.typ), 'p': p})
        at = len(out)
        assert (n.parent is None) == (p == 0) and (p == 0 or n.parent.ind == out[p - 1]['i'] - 1)
        for k in n.children:
            go(k, at)
    go(root, 0)
    return out


# ---- diagrams by direct construction: words, then wires brought together
def sentence(rng, words, links, snakes=0):
    """words: list of (name, type), links: pairs of wires (numbered along the
    line) to be joined; the layers use as many swaps as it takes; some wires
    take a detour over a cap."""
    layers, cur = [], Ty()
    for w, t in words:
        layers.append(Layer(left=cur, box=Word(w, t), right=Ty()))
        cur = cur @ t
    line, links = list(range(len(cur))), list(links)
    for _ in range(snakes if line else 0):
        i, new = rng.randrange(len(line)), 1000 + len(layers)
        o, t = line[i], cur[i:i + 1]
        if rng.random() < .5:
            b, at, a, z, u = Cap(t.r, t), i + 1, new, new + 500, (o, new)
        else:
            b, at, a, z, u = Cap(t, t.l), i, new + 500, new, (new, o)
        layers.append(Layer(left=cur[:at], box=b, right=cur[at:]))
        cur = layers[-1].cod
        line[at:at] = [a, z]
        links = [tuple(new + 500 if x == o else x for x in y) for y in links] + [u]
    todo = sorted(links, key=lambda x: line.index(x[1]) - line.index(x[0]))
    if rng.random() < .3:
        rng.shuffle(todo)

    def put(at, b):
        nonlocal cur
        y = Layer(left=cur[:at], box=b, right=cur[at + 2:])
        layers.append(y)
        cur = y.cod
    for a, b in todo:
        i, j = line.index(a), line.index(b)
        flip = i > j
        if flip:
            i, j = j, i
        while j - i > 1:
            if rng.random() < .5:
                put(i, Swap(cur[i:i + 1], cur[i + 1:i + 2]))
                line[i], line[i + 1] = line[i + 1], line[i]
                i += 1
            else:
                put(j - 1, Swap(cur[j - 1:j], cur[j:j + 1]))
                line[j - 1], line[j] = line[j], line[j - 1]
                j -= 1
        if flip:    # crossed: put the left one on the left again
            put(i, Swap(cur[i:i + 1], cur[i + 1:i + 2]))
            line[i], line[j] = line[j], line[i]
        put(i, Cup(cur[i:i + 1], cur[i + 1:i + 2]))
        del line[i:i + 2]
    return Diagram(dom=Ty(), cod=cur, layers=layers)


def settle(rng, d):
    """Swaps moved about: an extra pair of swaps somewhere."""
    layers = list(d.layers)
    n = sum(isinstance(y.box, Word) for y in layers)
    k = rng.randint(n, len(layers))
    cur = layers[k - 1].cod if k else d.dom
    if len(cur) < 2:
        return d
    i = rng.randrange(len(cur) - 1)
    s = Swap(cur[i:i + 1], cur[i + 1:i + 2])
    y = Layer(left=cur[:i], box=s, right=cur[i + 2:])
    z = Layer(left=cur[:i], box=Swap(s.right, s.left), right=cur[i + 2:])
    return Diagram(dom=d.dom, cod=d.cod, layers=layers[:k] + [y, z] + layers[k:])


def random_tree(rng, n, rich=True):
    order = list(range(n))
    rng.shuffle(order)
    pool = [[['n', 0]], [['s', 0]], [['n', 1], ['s', 0]], [['n', 0], ['n', 0]], [['s', 0], ['p', -1]], [['n', 2]],
            [['n', 1], ['s', 0], ['n', -1]]]
    tr = [None] * n
    for k, i in enumerate(order):
        tr[i] = {'w': rng.choice(['a', 'b', 'c', 'the', f'w{i}']), 't': rng.choice(pool if rich else pool[:3]),
                 'p': 0 if k == 0 else rng.choice(order[:k]) + 1}
    return tr


def tangled(rng, tr):
    """A sentence with the links of the tree, wires of each word anyhow."""
    n = len(tr)
    blocks = []
    for i in range(n):
        bs = [('own', proj.build_ty(tr[i]['t']))]
        for c in range(n):
            if tr[c]['p'] == i + 1:
                t = proj.build_ty(tr[c]['t'])
                bs.append((c, t.r if c < i else t.l))
        rng.shuffle(bs)
        blocks.append(bs)
    at, pos, words = 0, {}, []
    for i, bs in enumerate(blocks):
        t = Ty()
        for who, b in bs:
            pos[i, who] = list(range(at, at + len(b)))
            at += len(b)
            t = t @ b
        words.append((tr[i]['w'], t))
    links = []
    for c in range(n):
        if tr[c]['p']:
            a, b = pos[c, 'own'], pos[tr[c]['p'] - 1, c][::-1]
            links += [tuple(sorted(x)) for x in zip(a, b)]
    return words, links


def cyclic(rng, n):
    """A sentence whose words are linked by more than a tree (or twice)."""
    tr = random_tree(rng, n, rich=False)
    words, links = tangled(rng, tr)
    names = [w for w, _ in words]
    # wires per word, then extra pairs
    cells = []
    at = 0
    for w, t in words:
        cells.append([(o, at + k) for k, o in enumerate(t)])
        at += len(t)
    mate = {}
    for a, b in links:
        mate[a], mate[b] = b, a
    fresh = 10 ** 6
    for _ in range(rng.randint(1, 2)):
        i, j = sorted((rng.randrange(n), rng.randrange(n)))
        if i == j and rng.random() < .5:
            continue
        o = Ty(rng.choice('ns'), z=rng.choice([0, 1]))
        k = rng.randint(0, len(cells[i]))
        cells[i].insert(k, (o, fresh))
        m = rng.randint(k + 1 if i == j else 0, len(cells[j]))
        cells[j].insert(m, (o.r, fresh + 1))
        mate[fresh], mate[fresh + 1] = fresh + 1, fresh
        fresh += 2
    num, words = {}, []
    for w, cs in zip(names, cells):
        t = Ty()
        for o, key in cs:
            num[key] = len(num)
            t = t @ o
        words.append((w, t))
    links = [(num[a], num[b]) for a, b in mate.items() if num[a] < num[b]]
    return words, links


# ---- events
def ev_draw(root, tokens, how):
    ok, d = attempt(lambda: tree2diagram(root, tokens) if how else root.to_diagram(tokens))
    return {'op': 'draw', 'ok': ok, 'err': '' if ok else str(d), 'd': proj.diagram(d) if ok else 0}, d if ok else None


def ev_read(d, brk=False, how=True):
    def go():
        t = diagram2tree(d, break_cycles=brk) if how else d.to_pregroup_tree(break_cycles=brk)
        return nodes(t), t
    ok, r = attempt(go)
    return {'op': 'read', 'd': proj.diagram(d), 'brk': brk, 'ok': ok, 'err': '' if ok else str(r), 'nodes': r[0] if ok else []}, r[1] if ok else None


def ev_ask(rng, tr, root):
    def go():
        flat = [x[0] for x in root.get_nodes()]
        other = real([dict(x, w=x['w'] + "'") if i == 0 else x for i, x in enumerate(tr)])
        retyped = real([dict(x, t=x['t'] + [['q', 0]]) if i == len(tr) - 1 else x for i, x in enumerate(tr)])
        return {'words': root.get_words(), 'parents': [[p + 1 for p in ps] for ps in root.get_parents()],
                'types': [[proj.ty(t) for t in ts] for ts in root.get_types(as_str=False)],
                'indices': [i + 1 for i in root.get_word_indices()],
                'heights': [x.height for x in flat], 'depths': [x.get_depth() for x in flat],
                'roots': [x.get_root().ind + 1 for x in flat],
                'eqs': [bool(root == shuffled(rng, root)), bool(root == other), bool(root == retyped)]}
    ok, r = attempt(go)
    return {'op': 'ask', 'ok': ok, 'err': '' if ok else str(r), 'same': [True, False, False], **(r if ok else {})}


def ev_merge(tr, i):
    root = real(tr)
    flat = [x[0] for x in root.get_nodes()]

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            flat[i].merge()
        return nodes(root)
    ok, r = attempt(go)
    return {'op': 'merge', 'at': i + 1, 'ok': ok, 'err': '' if ok else str(r), 'nodes': r if ok else []}


def ev_build(rng, words, types, parents):
    def go():
        roots, ns = generate_tree(list(words), [[' @ '.join(n + '.l' * -z + '.r' * z for n, z in t) for t in ts] for ts in types],
                                  [[p - 1 for p in ps] for ps in parents])
        assert len(roots) == 1
        return nodes(roots[0])
    ok, r = attempt(go)
    return {'op': 'build', 'words': words, 'types': types, 'parents': parents, 'ok': ok, 'err': '' if ok else str(r), 'nodes': r if ok else []}


def tree_case(rng, tr, full=True):
    root = shuffled(rng, real(tr))
    words = [x['w'] for x in tr]
    top = [x for x in tr if x['p'] == 0][0]
    e, d = ev_draw(root, words, rng.random() < .5)
    es = [e]
    if d is not None and top['t']:
        r, back = ev_read(d, rng.random() < .3, rng.random() < .5)
        es.append(r)
        es.append({'op': 'back', 'ok': r['ok'], 'err': r['err'], 'nodes': r['nodes'], 'eq': bool(r['ok'] and back == root and root == back)})
    if full:
        es.append(ev_ask(rng, tr, real(tr)))
        es.append(ev_merge(tr, rng.randrange(len(tr))))
        if top['t']:
            es.append(ev_build(rng, words, [[x['t']] for x in tr], [[x['p']] for x in tr]))
    return {'kind': 'tree', 'tree': tr, 'events': es}


def dag_case(rng, n):
    """Words may have further parents among those that come before them in
    some order, so there are no cycles."""
    order = list(range(n))
    rng.shuffle(order)
    tr = random_tree(rng, n)
    types, parents = [0] * n, [0] * n
    for k, i in enumerate(order):
        if k == 0:
            ps = [0]
        else:
            ps = rng.sample([x + 1 for x in order[:k]], min(k, rng.choice([1, 1, 2, 3])))
        parents[i] = ps
        types[i] = [rng.choice([[['n', 0]], [['n', 1], ['s', 0]], [['s', 0]], [['n', -1]]]) for _ in ps]
    return {'kind': 'dag', 'tree': tr, 'events': [ev_build(rng, [x['w'] for x in tr], types, parents)]}


def read_case(rng, kind, d):
    es = [ev_read(d, False)[0], ev_read(d, True)[0]]
    return {'kind': kind, 'tree': [], 'events': es}


def words_first(d):
    ws = [isinstance(y.box, Word) for y in d.layers]
    return all(a >= b for a, b in zip(ws, ws[1:])) and all(not y.right for y, w in zip(d.layers, ws) if w)


def ccg_case(rng, depth):
    """The diagram of a derivation: caps where types were raised."""
    def plain(t):
        return (t['rule'] == 'L' or t['rule'] in ('FA', 'BA', 'C', 'X', 'FTR', 'BTR') or t['rule'].endswith('TR')
                or t['rule'][0] in 'CXF') and all(map(plain, t['ch']))
    for _ in range(200):
        g = p12.Gen(rng, unary=0)
        tr = g.grow(p12.A(rng.choice('sn')), depth)
        if not tr['ch'] or not plain(tr):
            continue
        ok, d = attempt(lambda: p12.tree(tr).to_diagram(planar=rng.random() < .5))
        if ok and len(d.layers) < 40 and words_first(d) and all(isinstance(y.box, (Word, Cup, Swap, Cap)) for y in d.layers):
            if any(isinstance(y.box, Cap) for y in d.layers) or rng.random() < .3:
                return read_case(rng, 'ccg', d)
    return None


def run(chk):
    rng, t = chk.rng, chk.thorough
    m = chk.model('P16Model', cfg='P16ModelThorough.cfg' if t else 'P16Model.cfg')
    trees = [json.loads(x.split('|', 1)[1].replace('\\"', '"')) for x in m.prints if x.startswith('@@RUN')]
    cases = [tree_case(rng, tr, full=i % (1 if t else 3) == 0) for i, tr in enumerate(trees)]
    for _ in range(chk.n(500, 6000)):
        cases.append(tree_case(rng, random_tree(rng, rng.choice([3, 4, 5, 5, 6, 6, 7, 8]), rng.random() < .7)))
    for _ in range(chk.n(150, 2000)):
        cases.append(dag_case(rng, rng.randint(2, 6)))
    for _ in range(chk.n(400, 5000)):
        tr = random_tree(rng, rng.randint(1, 6), rng.random() < .5)
        d = sentence(rng, *tangled(rng, tr), snakes=rng.choice([0, 0, 0, 1, 2]))
        cases.append(read_case(rng, 'tangled', settle(rng, d) if rng.random() < .3 else d))
    for _ in range(chk.n(400, 5000)):
        cases.append(read_case(rng, 'cyclic', sentence(rng, *cyclic(rng, rng.randint(2, 6)))))
    for _ in range(chk.n(200, 2000)):
        cc = ccg_case(rng, rng.randint(2, 5))
        if cc:
            cases.append(cc)
    chk.conform('P16Trace', cases, label='trees')


if __name__ == '__main__':
    main('P16', run)

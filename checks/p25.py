"""P25: drawings of diagrams, judged by spec/P25Trace.tla."""
import contextlib, io, json, os, re, sys
sys.path.insert(0, '/verif')
os.environ.setdefault('MPLBACKEND', 'Agg')
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import p16
from lambeq.backend import quantum
from lambeq.backend.drawing import draw, draw_equation, draw_pregroup
from lambeq.backend.drawing.mat_backend import MatBackend
from lambeq.backend.grammar import Box, Cap, Cup, Daggered, DaggeredFrame, Diagram, Frame, Layer, Spider, Swap, Ty, Word
from vlib.core import MachineryError, attempt, main

UNIT = 1000


def r(v):
    return round(float(v) * UNIT)


# ------------------------------------------------------------------ pictures
def empty():
    return {'polys': [], 'lines': [], 'dots': [], 'texts': []}


def poly(pic, pts):
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    side = lean(pts)
    if side:    # without the corner that sticks out
        xs = sorted(r(x) / UNIT for x in xs[:4])
        xs = xs[1:] if 'l' in side else xs[:-1]
    pic['polys'].append({'l': r(min(xs)), 'r': r(max(xs)), 'b': r(min(ys)), 't': r(max(ys)), 'lean': side})


def lean(pts):
    """The corner of a quadrilateral that sticks out."""
    pts = sorted(pts[:4] if len(pts) == 5 and list(pts[0]) == list(pts[4]) else pts, key=lambda p: (p[1], p[0]))
    if len(pts) != 4 or r(pts[0][1]) != r(pts[1][1]) or r(pts[2][1]) != r(pts[3][1]):
        return ''
    (bl, br), (tl, tr) = (r(pts[0][0]), r(pts[1][0])), (r(pts[2][0]), r(pts[3][0]))
    out = [k for k, c in (('tr', tr > br), ('br', br > tr), ('tl', tl < bl), ('bl', bl < tl)) if c]
    return out[0] if len(out) == 1 else ''


NODE = re.compile(r'^\\node \[(.*?)\] \((\d+)\) at \(([^,()]+), ([^,()]+)\) \{(.*)\};$')
DRAW = re.compile(r'^\\draw \[(.*)\] (\(.*\));$')


def read_tikz(text):
    """What a TikZ picture shows."""
    pic, at, layer = empty(), {}, None
    draws = []
    for line in text.split('\n'):
        if line.startswith('\\begin{pgfonlayer}') or line.startswith('%') or not line or line.startswith('\\tikzstyle'):
            layer = line[19:-1] if line.startswith('\\begin{pgf') else layer
        elif line.startswith('\\node (0)') or line.startswith('\\end') or line.startswith('\\begin'):
            pass
        elif NODE.match(line):
            opts, i, x, y, s = NODE.match(line).groups()
            if i in at:
                return None         # the name of a node is used again
            at[i] = (float(x), float(y))
            if s:
                pic['texts'].append({'s': s, 'x': r(x), 'y': r(y)})
            elif 'circle' in opts or re.match(r'style=(?!none)', opts):
                pic['dots'].append([r(x), r(y)])
        elif DRAW.match(line):
            draws.append(DRAW.match(line).groups())
        else:
            return None
    for opts, path in draws:
        ids = path.split(' to ')
        if not all(re.match(r'^\(\d+\.center\)$', i) for i in ids):
            return None
        pts = [at[i[1:-8]] for i in ids]
        if len(pts) == 2:
            pic['lines'].append([r(v) for p in pts for v in p])
        else:
            poly(pic, pts[:-1])
            if pts[0] != pts[-1]:
                return None
    return pic


def read_axis(axis):
    """What a matplotlib picture shows."""
    pic = empty()
    for p in axis.patches:
        v = p.get_path().vertices
        if p.get_facecolor()[3] == 0:
            pic['lines'].append([r(v[0][0]), r(v[0][1]), r(v[-1][0]), r(v[-1][1])])
        else:
            poly(pic, v)
    for c in axis.collections:
        pic['dots'] += [[r(x), r(y)] for x, y in c.get_offsets()]
    for t in axis.texts:
        x, y = t.get_position()
        if t.get_text():
            pic['texts'].append({'s': t.get_text(), 'x': r(x), 'y': r(y)})
    return pic


def picture(rng, chk, go):
    """Draw with either backend; go(**params) draws."""
    how = rng.random()
    if how < .45:
        b = MatBackend()
        try:
            ok, e = attempt(lambda: go(backend=b, show=False))
            return ok, read_axis(b.axis) if ok else empty(), 'mat' if ok else str(e)
        finally:
            plt.close('all')
    kw = {'to_tikz': True, 'use_tikzstyles': rng.random() < .3}
    path = os.path.join(chk.scratch, 'pic.tikz')
    if how < .75:
        ok, e = attempt(lambda: go(path=path, **kw))
        text = open(path).read() if ok else ''
    else:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            ok, e = attempt(lambda: go(**kw))
        text = out.getvalue()
    pic = read_tikz(text) if ok else empty()
    if pic is None:
        return False, empty(), 'not a picture'
    return ok, pic, 'tikz' if ok else str(e)


# ------------------------------------------------------------------ diagrams
KIND = [(Swap, 'swap'), (Cup, 'cup'), (Cap, 'cap'), (Spider, 'spider')]


def names(t):
    return [str(o) for o in t]


def show(d):
    ls = []
    for y in d.layers:
        b = y.box
        k = next((s for cls, s in KIND if isinstance(b, cls)), 'box')
        ls.append({'k': k, 'n': b.name if k == 'box' else '', 'off': len(y.left), 'd': names(b.dom), 'c': names(b.cod),
                   'z': getattr(b, 'z', 0), 'dag': isinstance(b, (Daggered, DaggeredFrame)),
                   'comps': [show(c.to_diagram()) for c in getattr(b, 'components', [])]})
    return {'dom': names(d.dom), 'cod': names(d.cod), 'layers': ls}


def ev_draw(rng, chk, d, of=1):
    pregroup = d.is_pregroup and rng.random() < .6
    foliated = not pregroup and rng.random() < .5
    labels = rng.random() < .6
    leans = any(isinstance(b, Daggered) or b.z for b in d.boxes)
    frames = any(isinstance(b, Frame) for b in d.boxes)
    kw = {} if leans or rng.random() < .5 else {'asymmetry': rng.choice([0, .1])}
    if not labels or rng.random() < .3:
        kw['draw_type_labels'] = labels
    if foliated or rng.random() < .2:
        kw['foliated'] = foliated
    labels = kw.get('draw_type_labels', not frames)
    if rng.random() < .2:
        kw['pad'] = (rng.choice([0, 1, 2.5]), rng.choice([0, 1, -2]))
    if rng.random() < .2:
        kw['fontsize'] = 10
    if pregroup:
        kw.pop('foliated', None)
        f = rng.choice([d.draw, lambda **k: draw_pregroup(d, **k)])
    elif d.is_pregroup:
        f = rng.choice([lambda **k: d.draw(draw_as_pregroup=False, **k), lambda **k: draw(d, **k)])
    else:
        f = rng.choice([d.draw, lambda **k: draw(d, **k)])
    ok, pic, err = picture(rng, chk, lambda **k: f(**{**kw, **k}))
    return {'op': 'draw', 'ok': ok, 'err': err, 'of': of, 'pic': pic, 'foliated': foliated, 'labels': labels,
            'lean': not pregroup and kw.get('asymmetry', .25 * leans) > 0, 'frames': frames, 'style': 'pregroup' if pregroup else 'plain', 'kw': str(kw)}


def ev_equation(rng, chk, ds):
    # the terms are drawn as Diagram.draw draws them
    symbol = rng.choice(['=', '=>', '~'])
    kw = {'asymmetry': 0, 'symbol': symbol}
    if rng.random() < .3:
        kw['space'] = rng.choice([1, 1.5, 2])
    if rng.random() < .3:
        kw['pad'] = (rng.choice([0, 1]), 0)
    folded = rng.random() < .3
    if folded:
        kw.update(foliated=True, draw_as_pregroup=False)
    ok, pic, err = picture(rng, chk, lambda **k: draw_equation(*ds, **{**kw, **k}))
    return {'op': 'equation', 'ok': ok, 'err': err, 'pic': pic, 'symbol': symbol, 'foliated': folded, 'labels': True, 'style': 'plain', 'lean': False, 'frames': False,
            'of': 0, 'kw': str(kw)}


def case(rng, chk, d, n=2):
    return {'ds': [show(d)], 'events': [ev_draw(rng, chk, d) for _ in range(n)]}


def equation(rng, chk, ds):
    return {'ds': [show(d) for d in ds], 'events': [ev_equation(rng, chk, ds)]}


def ty(s):
    t = Ty(s.split('.')[0])
    return t.r if s.endswith('.r') else t


def tys(ss):
    t = Ty()
    for s in ss:
        t = t @ ty(s)
    return t


def build(run, word=None):
    cur = tys(run['dom'])
    d = Diagram.id(cur)
    layers = []
    for y in run['layers']:
        a, b = tys(y['d']), tys(y['c'])
        box = {'box': lambda: Box(y['n'], a, b), 'swap': lambda: Swap(a[:1], a[1:]), 'cup': lambda: Cup(a[:1], a[1:]),
               'cap': lambda: Cap(b[:1], b[1:]),
               'spider': lambda: Spider((a or b)[:1], len(a), len(b))}[y['k']]()
        layers.append(Layer(left=cur[:y['off']], box=box, right=cur[y['off'] + len(a):]))
        cur = layers[-1].cod
    return Diagram(dom=tys(run['dom']), cod=cur, layers=layers)


def some(rng, k, base='ns'):
    t = Ty()
    for _ in range(k):
        o = Ty(rng.choice(base))
        t = t @ rng.choice([o, o, o.r, o.l])
    return t


def rand_diagram(rng, size, wide, q=False):
    """Layers of any kind wherever they fit."""
    word, turned = rng.random() < .2, rng.random() < .3
    mk = some if not q else lambda rng, k: quantum.qubit ** k
    dom = mk(rng, 0 if word else rng.choice([0, 1, 2, 3]))
    cur, layers, n = dom, [], 0
    for _ in range(size):
        can = [('box', i, a) for i in range(len(cur) + 1) for a in range(0, 4) if i + a <= len(cur)]
        if not q:
            can += [('spider', i, a) for i in range(len(cur)) for a in range(1, 4) if i + a <= len(cur) and all(cur[j] == cur[i] for j in range(i, i + a))] * 2
            can += [('cap', i, 0) for i in range(len(cur) + 1)]
            can += [('swap', i, 2) for i in range(len(cur) - 1)] * 3
            can += [('cup', i, 2) for i in range(len(cur) - 1) if cur[i].r == cur[i + 1]] * 8
        k, off, a = rng.choice(can)
        dm = cur[off:off + a]
        room = wide - (len(cur) - a)
        if k == 'box':
            n += 1
            cod = mk(rng, min(max(room, 0), rng.choice([0, 1, 1, 2, 2, 3, 4])))
            if q and rng.random() < .5:
                cod = dm
            if q:
                box = quantum.Box(f'b{n}', dm, cod)
            else:
                box = Word(f'b{n}', cod) if not dm and rng.random() < .5 else Box(f'b{n}', dm, cod)
                if turned and not isinstance(box, Word):
                    box = rng.choice([lambda: box, lambda: Box(f'b{n}', cod, dm).dagger(), lambda: Box(f'b{n}', dm.r, cod.r).l,
                                      lambda: Box(f'b{n}', dm.l, cod.l).r, lambda: Box(f'b{n}', cod.r, dm.r).l.dagger(),
                                      lambda: Box(f'b{n}', cod.l, dm.l).dagger().r])()
        elif k == 'spider':
            box = Spider(dm[:1], a, rng.choice([0, 1, 2, 3]) if room > 0 else rng.choice([0, 1]))
        elif k == 'cap':
            if room < 2:
                continue
            t = some(rng, 1)
            box = Cap(t, t.l) if rng.random() < .5 else Cap(t.r, t)
        elif k == 'swap':
            box = Swap(dm[:1], dm[1:])
        else:
            box = Cup(dm[:1], dm[1:])
        layers.append((Layer if not q else quantum.Layer)(left=cur[:off], box=box, right=cur[off + a:]))
        cur = layers[-1].cod
    return (quantum.Diagram if q else Diagram)(dom=dom, cod=cur, layers=layers)


N = Ty("n")


def frame(rng, i, k, depth):
    return Frame(f'F{i}', N ** k, N ** k, components=[circuit(rng, f'{i}_{c}', rng.choice([1, 1, 2, 3, k]), depth - 1)
                                                      for c in range(rng.randint(1, 3))])


def circuit(rng, i, wires, depth, states=False):
    """A text circuit: boxes and frames on the wires of some nouns (where there are frames, each on one wire)."""
    layers = [Layer(left=N ** j, box=Word(f'w{i}{j}', N), right=Ty()) for j in range(wires)] if states else []
    for j in range(rng.randint(1, 4)):
        k = rng.choice([a for a in (1, 1, 1, 2, 2, 3) if a <= wires]) if not depth else 1
        x = rng.random()
        if x < .15 and wires > 1 and not depth:
            k, b = 2, Swap(N, N)
        else:
            b = frame(rng, f'{i}_{j}', k, depth) if depth and x < .55 else Box(f'b{i}_{j}', N ** k, N ** k)
        off = rng.randint(0, wires - k)
        layers.append(Layer(left=N ** off, box=b, right=N ** (wires - off - k)))
    return Diagram(dom=Ty() if states else N ** wires, cod=N ** wires, layers=layers)


def covered():
    f = Frame('F', N, N, components=[Box('c', N, N).to_diagram(), Box('e', N, N).to_diagram()])
    return Box('b', N @ N, N @ N).to_diagram() >> f.to_diagram() @ Diagram.id(N)


def framed(rng, size, depth, i=''):
    """Any diagram, with some of its boxes replaced by frames."""
    d, layers = rand_diagram(rng, size, 4), []
    for j, y in enumerate(d.layers):
        b = y.box
        if type(b) in (Box, Word) and depth and rng.random() < .5:
            b = Frame(f'F{i}{j}', b.dom, b.cod, components=[framed(rng, rng.randint(0, 3), depth - 1, f'{i}{j}_') for _ in range(rng.randint(0, 3))])
        layers.append(Layer(left=y.left, box=b, right=y.right))
    return Diagram(dom=d.dom, cod=d.cod, layers=layers)


def ev_drawable(rng, chk, d):
    foliated = rng.random() < .3
    kw = {'foliated': True} if foliated else {}
    if rng.random() < .2:
        kw['coloring_mode'] = rng.choice(['type', 'order'])
    if rng.random() < .2:
        kw['color_wires'] = rng.random() < .5
    ok, pic, err = picture(rng, chk, lambda **k: d.draw(draw_as_pregroup=False, **{**kw, **k}))
    return {'op': 'drawable', 'ok': ok, 'err': err, 'of': 1, 'kw': str(kw)}


def rename(d):
    """Words whose names are all different."""
    n, ls = 0, []
    for y in d.layers:
        b = y.box
        if isinstance(b, Word):
            n += 1
            b = Word(f'{b.name}{n}', b.cod)
        ls.append(Layer(left=y.left, box=b, right=y.right))
    return Diagram(dom=d.dom, cod=d.cod, layers=ls)


def rand_sentence(rng):
    import p22
    return rename(p22.rand_sentence(rng))


def run(chk):
    rng, t = chk.rng, chk.thorough
    m = chk.model('P25Model', cfg='P25ModelThorough.cfg' if t else 'P25Model.cfg')
    runs = [json.loads(x.split('|', 1)[1].replace('\\"', '"')) for x in m.prints if x.startswith('@@RUN')]
    if len(runs) > chk.n(700, 6000):
        runs = rng.sample(runs, chk.n(700, 6000))
    cases = [case(rng, chk, build(x), 1) for x in runs]
    pool = []
    for _ in range(chk.n(350, 3000)):
        d = rand_diagram(rng, rng.randint(0, 8), rng.choice([3, 5, 7]))
        pool.append(d)
        cases.append(case(rng, chk, d, 2))
    for _ in range(chk.n(60, 600)):
        cases.append(case(rng, chk, rand_diagram(rng, rng.randint(1, 8), rng.choice([3, 5]), q=True), 1))
    for _ in range(chk.n(150, 1500)):
        d = rand_sentence(rng)
        if rng.random() < .3:
            pool.append(d)
        cases.append(case(rng, chk, d, 2))
    for _ in range(chk.n(50, 500)):
        d = rename(p16.sentence(rng, *p16.tangled(rng, p16.random_tree(rng, rng.randint(2, 5)))))
        if len(d.layers) < 40:
            cases.append(case(rng, chk, d, 1))
    for _ in range(chk.n(130, 1300)):
        d = circuit(rng, '', rng.randint(1, 4), rng.choice([1, 1, 2]), rng.random() < .6)
        cases.append(case(rng, chk, d, 1))
    for _ in range(chk.n(60, 600)):
        d = framed(rng, rng.randint(1, 5), rng.choice([1, 2]))
        cases.append({'ds': [], 'events': [ev_drawable(rng, chk, d)]})
    cases.append({**case(rng, chk, covered(), 1), 'cls': 'covered'})
    small = [d for d in pool if len(d.layers) < 6]
    for _ in range(chk.n(80, 800)):
        cases.append(equation(rng, chk, [rng.choice(small) for _ in range(rng.choice([1, 2, 2, 3]))]))
    chk.conform('P25Trace', cases, label='drawings',
                keyf=lambda c, cl: 'frame:covers-wire-from-same-box' if c.get('cls') == 'covered' and set(cl) <= {'draw:line-through-box', 'draw:lines-overlap', 'draw:wiring'} else None)


if __name__ == '__main__':
    main('P25', run)

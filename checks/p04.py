"""P04: serialisation and copying, judged by spec/P04Trace.tla and
spec/P04TTrace.tla; the histories come from spec/P04Model.tla."""
import copy, json, pickle, sys
sys.path.insert(0, '/verif')
import numpy as np
import p12
from lambeq.backend import grammar as G, quantum as Q, tensor as T
from lambeq.backend.grammar import Box, Cap, Cup, Daggered, Diagram, DaggeredFrame, Frame, Id, Layer, Spider, Swap, Ty, Word
from lambeq.backend.symbol import Symbol
from lambeq.core.utils import fast_deepcopy
from lambeq.text2diagram.ccg_tree import CCGTree
from lambeq.text2diagram.ccg_type import CCGType
from vlib.core import attempt, main
from vlib import gen, qgen

NAMES = ['f', 'g', 'Alice', 'naïve', 'd\'où', 'say "so"', '日本', 'a\\b', 'tab\t', '', '🙂', ' ', '1', 'UNIBOX', 'u.l', 'x†', '\u2028']


# ---- projections: everything a value consists of
def full(o):
    if o is None or isinstance(o, (bool, int, str)):
        return o
    if isinstance(o, Symbol):
        return ['Symbol', o.name, int(o.directed_dom), int(o.directed_cod), str(o.scale)]
    if isinstance(o, (float, complex, np.number)):
        return str(complex(o))
    if isinstance(o, np.ndarray):
        return ['array', list(o.shape), str(o.dtype.kind), *map(full, o.reshape(-1))]
    if isinstance(o, (list, tuple)):
        return [type(o).__name__, *map(full, o)]
    name = f'{type(o).__module__.rsplit(".", 1)[-1]}.{type(o).__name__}'
    if isinstance(o, CCGType):
        return [name, str(o), o.is_empty, o.is_atomic, *([full(o.result), o.direction, full(o.argument)] if o.is_complex else [])]
    if isinstance(o, CCGTree):
        return [name, o.text, o.rule.value, full(o.biclosed_type), o.height, [full(c) for c in o.children]]
    if isinstance(o, G.Ty):
        return [name, [[x.name, x.z] for x in o], o.is_atomic, *([list(o.dim)] if type(o) is T.Dim else [])]
    if isinstance(o, G.Layer):
        return [name, full(o.left), full(o.box), full(o.right)]
    if isinstance(o, G.Diagram):
        return [name, full(o.dom), full(o.cod), [full(x) for x in o.layers]]
    if isinstance(o, G.Box):
        r = [name, o.name, full(o.dom), full(o.cod), o.z]
        if isinstance(o, DaggeredFrame):
            r += [full(o.frame)]
        if isinstance(o, Frame):
            r += [[full(c) for c in o.components]]
        if isinstance(o, G.Daggered):
            r += [full(o.box)]
        if isinstance(o, G.Spider):
            r += [full(o.type), o.n_legs_in, o.n_legs_out]
        if isinstance(o, (G.Cup, G.Cap, G.Swap)):
            r += [full(o.left), full(o.right)]
        if isinstance(o, Q.Controlled):
            r += [full(o.controlled), o.distance]
        if isinstance(o, T.Box) and not isinstance(o, (Q.Controlled, G.Daggered)):
            r += [full(o.data)]
        if isinstance(o, Q.Box):
            r += [bool(o.is_mixed), bool(o.self_adjoint)]
        return r
    raise TypeError(type(o))


def behaviour(o):
    fns = {}
    if isinstance(o, CCGType):
        fns = {'str': lambda: str(o), 'pretty': lambda: o.to_string(pretty=True), 'over': lambda: full(o.over(o)),
               'gram': lambda: full(o.to_grammar())}
    elif isinstance(o, CCGTree):
        fns = {'json': lambda: o.to_json(), 'deriv': lambda: o.deriv(), 'diagram': lambda: full(o.to_diagram()),
               'trivial': lambda: full(o.without_trivial_unary_rules())}
    elif isinstance(o, Symbol):
        fns = {'unscaled': lambda: full(o.unscaled), 'scaled': lambda: full(o * 2), 'sort': lambda: str(o.sort_key) if hasattr(o, 'sort_key') else 0}
    elif isinstance(o, G.Ty):
        fns = {'str': lambda: str(o), 'repr': lambda: repr(o), 'l': lambda: full(o.l), 'r': lambda: full(o.r),
               'two': lambda: full(o @ o), 'id': lambda: full(o.to_diagram()), 'unwind': lambda: full(o.unwind())}
    elif isinstance(o, G.Layer):
        fns = {'dagger': lambda: full(o.dagger()), 'repr': lambda: repr(o), 'dom': lambda: full(o.dom), 'cod': lambda: full(o.cod),
               'ext': lambda: full(o.extend(left=o.left))}
    else:
        fns = {'repr': lambda: repr(o), 'dagger': lambda: full(o.dagger()), 'twice': lambda: full(o.dagger().dagger()),
               'l': lambda: full(o.l), 'r': lambda: full(o.r), 'r2': lambda: full(o.rotate(2)), 'diagram': lambda: full(o.to_diagram()),
               'then': lambda: full(o.to_diagram() >> o.dagger().to_diagram()), 'beside': lambda: full(o @ o)}
        if isinstance(o, G.Frame):
            fns.update(type=lambda: o.frame_type, order=lambda: o.frame_order)
        if isinstance(o, T.Diagram):
            fns['free'] = lambda: sorted(map(str, o.free_symbols))
            fns['eval'] = lambda: [[round(y * 10007.31 + .3771) for y in (x.real, x.imag)]
                                   for x in np.asarray(o.eval(), dtype=complex).reshape(-1)] if not o.free_symbols else 0
    out = {}
    for k, f in fns.items():
        ok, v = attempt(f)
        out[k] = v if ok else 'error ' + str(v)
    return out


# ---- values
class Values:
    def __init__(self, rng):
        self.rng = rng

    def name(self):
        return self.rng.choice(NAMES)

    def ty(self):
        return gen.ty(self.rng, 0, 3)

    def box(self, deep=2, plain=False):
        r = self.rng
        k = r.choice(['box', 'word', 'dbox', 'dword', 'cup', 'cap', 'swap', 'spider']
                     + ([] if plain or not deep else ['frame', 'frame', 'dframe']))
        a = gen.atom(r)
        rev = r.random() < .4
        z = r.choice([0, 0, 1, -1, 2])
        if k in ('box', 'dbox'):
            b = Box(self.name(), self.ty(), self.ty(), z)
        elif k in ('word', 'dword'):
            b = Word(self.name(), self.ty(), z=z)
        elif k == 'cup':
            b = Cup(a, a.l if rev else a.r, is_reversed=rev)
        elif k == 'cap':
            b = Cap(a, a.r if rev else a.l, is_reversed=rev)
        elif k == 'swap':
            b = Swap(a, gen.atom(r))
        elif k == 'spider':
            b = Spider(a, r.randint(0, 3), r.randint(0, 3))
        else:
            b = Frame(self.name(), self.ty(), self.ty(), z, [self.part(deep - 1) for _ in range(r.randint(1, 3))])
        return b.dagger() if k[0] == 'd' else b

    def part(self, deep):
        return self.box(deep) if self.rng.random() < .6 else self.diagram(deep, 2)

    def diagram(self, deep=1, n=4):
        r = self.rng
        cur, layers = self.ty(), []
        dom = cur
        for _ in range(r.randint(0, n)):
            b = self.box(deep)
            spots = [i for i in range(len(cur) - len(b.dom) + 1) if cur[i:i + len(b.dom)] == b.dom]
            if not spots or len(cur) + len(b.cod) - len(b.dom) > 7:
                continue
            i = r.choice(spots)
            layers.append(Layer(left=cur[:i], box=b, right=cur[i + len(b.dom):]))
            cur = layers[-1].cod
        return Diagram(dom=dom, cod=cur, layers=layers)

    def rich(self):
        """A diagram drawn from the general generator, where more fits."""
        r = self.rng
        return gen.diagram(r, n_layers=r.randint(1, 6), names=NAMES, z_boxes=(0, 0, 1, -1), dagger=.3)

    def ccgtype(self, deep=3):
        r = self.rng
        if deep == 0 or r.random() < .35:
            return CCGType() if r.random() < .1 else CCGType(r.choice(['n', 's[dcl]', 'np', 'N', 'conj', ',', 'é', ' ', 's[x=y]', '"']))
        return self.ccgtype(deep - 1).slash(r.choice('/\\'), self.ccgtype(deep - 1))

    def ccgtree(self, deep=3):
        r = self.rng
        if r.random() < .5:
            g = p12.Gen(r)
            ok, t = attempt(lambda: p12.tree(g.tree(deep)))
            if ok:
                return t
        k = r.random()
        if deep == 0 or k < .3:
            return CCGTree(self.name(), biclosed_type=self.ccgtype(2))
        kids = [self.ccgtree(deep - 1) for _ in range(1 if k < .5 else 2)]
        rule = r.choice(['U', 'FTR', 'BTR', 'UNK'] if len(kids) == 1 else ['FA', 'BA', 'FC', 'BX', 'RP', 'CONJ', 'UNK'])
        ok, t = attempt(lambda: CCGTree(r.choice([None, None, 'some text']), rule=rule, biclosed_type=self.ccgtype(2), children=kids))
        return t if ok else kids[0]

    def circuit(self):
        r = self.rng
        g = qgen.Gen(r, units=True, mixed=r.random() < .5, bits=True, maxq=3)
        d = g.diagram(n=r.randint(1, 7))
        if r.random() < .4 and len(d.cod) and d.cod[0] == Q.qubit:
            s = Symbol(self.name(), scale=r.choice([1, .5, -2.]))
            d = d >> (r.choice([Q.Rx, Q.Ry, Q.Rz])(s).to_diagram() @ Q.Id(d.cod[1:]))
        return d

    def tensor(self):
        r = self.rng
        cur = T.Dim(*[r.choice([2, 3]) for _ in range(r.randint(0, 2))])
        d = T.Diagram.id(cur)
        for _ in range(r.randint(1, 3)):
            out = T.Dim(*[r.choice([2, 3]) for _ in range(r.randint(0, 2))])
            n = max(1, int(np.prod(d.cod.dim)) * int(np.prod(out.dim)))
            if r.random() < .25:
                data = Symbol(self.name(), directed_cod=n, scale=r.choice([1, 2.]))
            else:
                data = np.array([r.randint(-3, 3) for _ in range(n)], dtype=r.choice([float, complex]))
            b = T.Box(self.name(), d.cod, out, data)
            d = d >> b if r.random() < .7 else d >> T.Box(self.name(), out, d.cod, data).dagger()
            if r.random() < .3 and len(d.cod) > 1:
                d = d >> (T.Swap(d.cod[:1], d.cod[1:2]) @ T.Diagram.id(d.cod[2:]))
        return d

    def symbol(self):
        return Symbol(self.name(), directed_dom=self.rng.choice([1, 2]), directed_cod=self.rng.choice([1, 4]),
                      scale=self.rng.choice([1, .25, -3.]))

    def any(self, kind):
        if kind == 'layer':
            b = self.box()
            return Layer(left=self.ty(), box=b, right=self.ty())
        if kind == 'diagram':
            return self.diagram() if self.rng.random() < .6 else self.rich()
        return getattr(self, kind)()


JSONABLE = ['ty', 'box', 'box', 'box', 'layer', 'diagram', 'diagram', 'ccgtype', 'ccgtree']
KINDS = JSONABLE + ['circuit', 'tensor', 'symbol']


# ---- operations on the real store
def dump(rng, o, kind):
    """(how, data): one document."""
    hows = ['pickle'] + (['string'] if kind == 'ccgtype' else ['json', 'text', 'json', 'text'] if kind in JSONABLE else [])
    how = rng.choice(hows)
    if how == 'pickle':
        return how, pickle.dumps(o, rng.choice([2, 4, 5]))
    if how == 'string':
        return how, str(o)
    j = o.to_json()
    if how == 'text':
        return how, json.dumps(j, ensure_ascii=rng.random() < .5, sort_keys=rng.random() < .5, indent=rng.choice([None, 1]))
    if rng.random() < .3:   # a dictionary that came from somewhere else
        j = json.loads(json.dumps(j))
    return how, j


def load(rng, how, data, cls):
    if how == 'pickle':
        return how, pickle.loads(data)
    if how == 'string':
        return how, CCGType.parse(data)
    if cls is CCGTree:
        return how, CCGTree.from_json(data)
    via = rng.choice(['class', 'category'])
    return how + '/' + via, (cls if via == 'class' else G.grammar).from_json(data)


def copied(rng, o):
    k = rng.choice(['deepcopy', 'pickle', 'fast'])
    return k, {'deepcopy': lambda: copy.deepcopy(o), 'fast': lambda: fast_deepcopy(o),
               'pickle': lambda: pickle.loads(pickle.dumps(o))}[k]()


def named(o):
    """Boxes of o with a name of their own, wherever they are."""
    if isinstance(o, G.Diagram):
        return [b for y in o.layers for b in named(y.box)]
    if isinstance(o, Layer):
        return named(o.box)
    if isinstance(o, DaggeredFrame):
        return []
    if isinstance(o, Frame):
        return [o] + [b for x in o.components for b in named(x)]
    if type(o) in (Box, Word):
        return [o]
    return []


def edit(rng, o):
    """Change o in place; None if there is nothing to change."""
    if isinstance(o, (CCGType, Symbol)):
        return None
    if isinstance(o, CCGTree):
        while o.children and rng.random() < .6:
            o = rng.choice(o.children)
        o.biclosed_type = CCGType('edited')
        return 'node'
    if isinstance(o, T.Diagram):
        arr = [y.box for y in o.layers if isinstance(getattr(y.box, 'data', None), np.ndarray) and type(y.box) in (T.Box, Q.Box)]
        if arr and rng.random() < .6:
            rng.choice(arr).data.reshape(-1)[...] += 1
            return 'data'
        if not o.layers:
            return None
        o.layers.append(o.layers[0])
        return 'layers'
    if isinstance(o, G.Ty):
        if o.is_atomic:
            o.name += '!'
        elif o.is_complex:
            o.objects.append(Ty('edited'))
        else:
            o.name = 'edited'
        return 'ty'
    bs = named(o)
    if isinstance(o, G.Diagram) and (not bs or rng.random() < .3):
        if not o.layers:
            return None
        o.layers.pop() if rng.random() < .5 else o.layers.append(o.layers[0])
        return 'layers'
    if not bs:
        return None
    b = rng.choice(bs)
    if isinstance(b, Frame) and rng.random() < .5:
        b.components.append(Box('edited', Ty(), Ty()))
    else:
        b.name += '!'
    return 'name'


def scribble(rng, how, data):
    """Change the data a document consists of, if it can be changed."""
    if not isinstance(data, dict):
        return

    def walk(x):
        for k in list(x) if isinstance(x, dict) else range(len(x)):
            if isinstance(x[k], (dict, list)):
                walk(x[k])
            elif isinstance(x[k], str):
                x[k] = 'scribbled'
            elif isinstance(x[k], int):
                x[k] += 7
        if isinstance(x, list):
            x.append('scribbled')
    walk(data)


def snap(data):
    return repr(data) if isinstance(data, (str, bytes)) else json.dumps(data, sort_keys=True, default=repr)


def play(rng, hist, kind):
    vs = Values(rng)
    o = vs.any(kind)
    pool = {}

    def idx(x):
        return pool.setdefault(json.dumps(x, sort_keys=True, default=repr), len(pool) + 1)
    objs, docs, events, was = [o], [], [], []
    case = {'kind': kind, 'cls': type(o).__name__, 'repr': repr(o)[:300], 'v': idx(full(o)), 'b': idx(behaviour(o))}
    for h in hist:
        op, i = h['op'], h['i'] - 1
        how, eqs, at = op, [], 0
        if op in ('dump', 'copy', 'edit') and i >= len(objs) or op in ('load', 'scribble') and i >= len(docs):
            break

        def go():
            nonlocal how
            if op == 'dump':
                how, data = dump(rng, objs[i], kind)
                docs.append((how, data, type(objs[i])))
                was.append(snap(data))
            elif op == 'load':
                how, x = load(rng, *docs[i])
                objs.append(x)
            elif op == 'copy':
                how, x = copied(rng, objs[i])
                objs.append(x)
            elif op == 'edit':
                edit(rng, objs[i])
            else:
                how = docs[i][0]
                scribble(rng, *docs[i][:2])
        ok, err = attempt(go)
        e = {'op': op, 'i': i + 1, 'how': how if ok or op != 'load' else docs[i][0], 'ok': ok, 'err': '' if ok else str(err),
             'objs': [], 'docs': [], 'b': 0, 'at': 1, 'eq': []}
        if ok:
            def observe():
                e['objs'] = [idx(full(x)) for x in objs]
                if op in ('load', 'copy', 'edit'):
                    at = len(objs) - 1 if op != 'edit' else i
                    e['at'] = at + 1
                    e['b'] = idx(behaviour(objs[at]))
                    e['objs'] = [idx(full(x)) for x in objs]   # looking changes nothing
                    for k, x in enumerate(objs):
                        if k != at:
                            ha = [attempt(lambda y=y: hash(y)) for y in (x, objs[at])]
                            e['eq'].append({'eq': bool(objs[at] == x), 're': bool(x == objs[at]), 'ha': ha[0] == ha[1],
                                            'id': x is objs[at]})
                        else:
                            e['eq'].append({'eq': True, 're': True, 'ha': True, 'id': False})
                e['docs'] = [idx(snap(d)) for _, d, _ in docs]
            ok, err = attempt(observe)
            if not ok:
                e.update(ok=False, err=str(err))
        events.append(e)
        if not e['ok']:
            break
    case['events'] = events
    return case


# ---- text of categories
def chars(s):
    return list(s)


def jt(t):
    if t.is_empty:
        return ['e']
    if t.is_atomic:
        return ['a', chars(t.name)]
    return ['c', jt(t.result), t.direction, jt(t.argument)]


def read_case(rng, s, mapped=False):
    frm, to = ['n'], ['N', 'P']
    f = (lambda a: 'NP' if a == 'n' else a) if mapped else None
    ok, t = attempt(lambda: CCGType.parse(''.join(s), map_atomic=f))
    return {'k': 'read', 's': list(s), 'ok': ok, 'err': '' if ok else str(t), 't': jt(t) if ok else ['e'], 'map': mapped,
            'from': frm, 'to': to}


def write_case(rng, t, pretty):
    ok, s = attempt(lambda: t.to_string(pretty) if pretty or rng.random() < .5 else str(t))
    return {'k': 'write', 't': jt(t), 'pretty': pretty, 'ok': ok, 'err': '' if ok else str(s),
            's': [{'↢': 'over', '↣': 'under'}.get(x, x) for x in s] if ok else []}


def run(chk):
    rng = chk.rng
    t = chk.thorough
    m = chk.model('P04Model', cfg='P04ModelThorough.cfg' if t else 'P04Model.cfg')
    runs = [json.loads(x.split('|', 1)[1].replace('\\"', '"')) for x in m.prints if x.startswith('@@RUN')]
    m = chk.model('P04Text', cfg='P04TextThorough.cfg' if t else 'P04Text.cfg')
    texts = [x.split('|', 1)[1] for x in m.prints if x.startswith('@@RUN')]
    cases = []
    for h in runs:
        for kind in (KINDS if t else rng.sample(KINDS, 2)):
            cases.append(play(rng, h, kind))
    for kind in KINDS:      # every kind often enough: there and back by each road
        for _ in range(chk.n(60, 600)):
            h = [{'op': 'dump', 'i': 1}, {'op': 'load', 'i': 1}, {'op': 'load', 'i': 1}, {'op': 'edit', 'i': 2},
                 {'op': 'scribble', 'i': 1}, {'op': 'copy', 'i': 1}, {'op': 'edit', 'i': 1}]
            cases.append(play(rng, h, kind))
    chk.conform('P04Trace', cases, label='store')
    tc = []
    for x in texts:
        s = json.loads(json.loads('"' + x + '"')) if x.startswith('[') and '\\"' in x else json.loads(x)
        tc.append(read_case(rng, s))
        if rng.random() < .2:
            tc.append(read_case(rng, s, True))
    for _ in range(chk.n(800, 20000)):
        n = rng.randint(5, 14)
        s = ''.join(rng.choice(['(', ')', '/', '\\', 'n', 'n', 's[b]', '[conj]', ' ', 'é']) for _ in range(n))
        if rng.random() < .6:
            s = str(Values(rng).ccgtype())
            if rng.random() < .5 and s:
                i = rng.randrange(len(s))
                s = s[:i] + rng.choice(['', '(', ')', '/', '\\', '[conj]', s[i] * 2]) + s[i + 1:]
            if rng.random() < .3:
                s += '[conj]'
        tc.append(read_case(rng, chars(s), rng.random() < .3))
        tc.append(write_case(rng, Values(rng).ccgtype(), rng.random() < .4))
    chk.conform('P04TTrace', tc, label='text')


if __name__ == '__main__':
    main('P04', run)

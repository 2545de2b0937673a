"""P13: the chart parser, judged by spec/P13Trace.tla (a chart machine)."""
import json, math, sys
sys.path.insert(0, '/verif')
from lambeq.bobcat import ChartParser, Grammar, Sentence, Supertag
from vlib.core import attempt, main

VAR = '+_YZWVUTRQAB'


def cat(s):
    """A category string as a structure; variables from the markup."""
    pos = 0

    def node():
        nonlocal pos
        if s[pos] == '(':
            pos += 1
            a = node()
            d = s[pos]
            pos += 1
            b = node()
            assert s[pos] == ')', s
            pos += 1
            return {'dir': d, 'r': a, 'g': b, 'v': var()}
        st = pos
        while pos < len(s) and s[pos] not in '[]{}<>()/\\':
            pos += 1
        at, f = s[st:pos], ''
        if pos < len(s) and s[pos] == '[':
            en = s.index(']', pos)
            f, pos = s[pos + 1:en], en + 1
        return {'at': at, 'f': f, 'v': var()}

    def var():
        nonlocal pos
        v = 0
        if pos < len(s) and s[pos] == '{':
            v, pos = VAR.index(s[pos + 1]), s.index('}', pos) + 1
        if pos < len(s) and s[pos] == '<':
            pos = s.index('>', pos) + 1
        return v
    r = node()
    if pos != len(s):
        d = s[pos]
        pos += 1
        r = {'dir': d, 'r': r, 'g': node(), 'v': 0}
        if pos != len(s):
            return cat('(' + s + ')')
    return r


def real(c):
    """The shape of a category of the implementation."""
    if c.dir == '\0':
        return {'at': str(c.atom), 'f': str(c.feature), 'v': 0}
    return {'dir': c.dir, 'r': real(c.result), 'g': real(c.argument), 'v': 0}


MARKED = {
    'N': 'N{_}', 'NP': 'NP{_}', 'NP[nb]': 'NP[nb]{_}', 'PP': 'PP{_}', 'S[dcl]': 'S[dcl]{_}', 'S[pss]': 'S[pss]{_}', 'conj': 'conj{_}',
    ',': ',{_}', '.': '.{_}', ';': ';{_}', ':': ':{_}',
    'NP[nb]/N': '(NP[nb]{Y}/N{Y}<1>){_}', 'N/N': '(N{Y}/N{Y}<1>){_}', 'N\\N': '(N{Y}\\N{Y}<1>){_}',
    'NP\\NP': '(NP{Y}\\NP{Y}<1>){_}',
    'S[dcl]\\NP': '(S[dcl]{_}\\NP{Y}<1>){_}', 'S[pss]\\NP': '(S[pss]{_}\\NP{Y}<1>){_}', 'S[to]\\NP': '(S[to]{_}\\NP{Z}<1>){_}',
    '(S[dcl]\\NP)/NP': '((S[dcl]{_}\\NP{Y}<1>){_}/NP{Z}<2>){_}',
    '(S[b]\\NP)/NP': '((S[b]{_}\\NP{Y}<1>){_}/NP{Z}<2>){_}',
    '(S[dcl]\\NP)/PP': '((S[dcl]{_}\\NP{Y}<1>){_}/PP{Z}<2>){_}',
    '((S[dcl]\\NP)/PP)/NP': '(((S[dcl]{_}\\NP{Y}<1>){_}/PP{Z}<3>){_}/NP{W}<2>){_}',
    '((S[b]\\NP)/PP)/NP': '(((S[b]{_}\\NP{Y}<1>){_}/PP{Z}<3>){_}/NP{W}<2>){_}',
    '(((S[b]\\NP)/PP)/PP)/NP': '((((S[b]{_}\\NP{Y}<1>){_}/PP{V}<4>){_}/PP{Z}<3>){_}/NP{W}<2>){_}',
    '(S[dcl]\\NP)/(S[b]\\NP)': '((S[dcl]{_}\\NP{Y}<1>){_}/(S[b]{Z}<2>\\NP{Y*}){Z}){_}'.replace('*', ''),
    '(S[to]\\NP)/(S[b]\\NP)': '((S[to]{_}\\NP{Z}){_}/(S[b]{Y}<2>\\NP{Z}){Y}){_}',
    'PP/NP': '(PP{_}/NP{Y}<1>){_}',
    '(S\\NP)\\(S\\NP)': '((S[X]{Y}\\NP{Z}){Y}\\(S[X]{Y}<1>\\NP{Z}){Y}){_}',
    '(S\\NP)/(S\\NP)': '((S[X]{Y}\\NP{Z}){Y}/(S[X]{Y}<1>\\NP{Z}){Y}){_}',
    '((S\\NP)\\(S\\NP))/NP': '(((S[X]{Y}\\NP{Z}){Y}\\(S[X]{Y}<1>\\NP{Z}){Y}){_}/NP{W}<2>){_}',
    '(NP\\NP)/NP': '((NP{Y}\\NP{Y}<1>){_}/NP{Z}<2>){_}',
    '(NP\\NP)/(S[dcl]\\NP)': '((NP{Y}\\NP{Y}<1>){_}/(S[dcl]{Z}<2>\\NP{Y}){Z}){_}',
    '(NP\\NP)/(S[dcl]/NP)': '((NP{Y}\\NP{Y}<1>){_}/(S[dcl]{Z}<2>/NP{Y}){Z}){_}',
    'S/S': '(S[X]{Y}/S[X]{Y}<1>){_}', 'S\\S': '(S[X]{Y}\\S[X]{Y}<1>){_}',
    'S[dcl]\\S[dcl]': '(S[dcl]{Y}\\S[dcl]{Y}<1>){_}',
    '(S[dcl]\\S[dcl])\\NP': '((S[dcl]{Y}\\S[dcl]{Y}<1>){_}\\NP{Z}<2>){_}',
    'conj/PP': '(conj{_}/PP{Y}<1>){_}', 'N\\conj': '(N{_}\\conj{Y}<1>){_}',
    'S[dcl]/NP': '(S[dcl]{_}/NP{Y}<1>){_}',
}
RAISE = [('NP', '(S[X]{Y}/(S[X]{Y}\\NP{_}){Y}){Y}', '+'),
         ('NP', '((S[X]{Y}\\NP{Z}){Y}\\((S[X]{Y}\\NP{Z}){Y}/NP{_}){Y}){Y}', '_'),
         ('NP', '(((S[X]{Y}\\NP{Z}){Y}/PP{W}){Y}\\(((S[X]{Y}\\NP{Z}){Y}/PP{W}){Y}/NP{_}){Y}){Y}', '_'),
         ('PP', '((S[X]{Y}\\NP{Z}){Y}\\((S[X]{Y}\\NP{Z}){Y}/PP{_}){Y}){Y}', '+')]
CHANGE = [(1, 'N', None, 'NP', False), (2, 'S[pss]\\NP', None, 'NP\\NP', True), (3, 'S[to]\\NP', None, 'N\\N', False),
          (4, 'S[to]\\NP', None, 'S/S', False), (5, ',', 'S[pss]\\NP', 'NP\\NP', False), (6, 'S[dcl]/S[dcl]', ',', 'S/S', False),
          (7, 'NP', ',', 'S/S', False), (8, ',', 'NP', 'NP\\NP', False), (9, 'S[dcl]/NP', None, 'N\\N', False), (10, 'S', ':', 'S/S', False)]
FREQ = ['N', 'NP', 'NP[nb]/N', 'N/N', 'S[dcl]\\NP', '(S[dcl]\\NP)/NP', '(S\\NP)\\(S\\NP)', 'conj', ',', 'PP/NP']


class World:
    def __init__(self, rng):
        self.rng = rng
        names = [n for n in MARKED if n in FREQ or rng.random() < .55]
        self.raising = [r for r in RAISE if rng.random() < .7]
        self.change = [t for t in CHANGE if rng.random() < .6 and t[3] in names]
        self.names = names
        self.enf = rng.random() < .6

    def plain(self):
        return list(self.names)


UNIVERSE = None


def universe():
    """Category strings that arise when anything may combine (found once by
    letting the parser combine freely)."""
    global UNIVERSE
    if UNIVERSE is not None:
        return UNIVERSE
    from lambeq.bobcat.lexicon import Category
    from lambeq.bobcat.rules import Rules
    from lambeq.bobcat.tree import Lexical

    class Any(set):
        def __contains__(self, x):
            return True
    g = Grammar(dict(MARKED), [], list(CHANGE), list(RAISE))
    marked = {k: Category.parse(v) for k, v in MARKED.items()}
    r = Rules(False, g, marked)
    r.rule_instances = Any()
    pool = [Lexical(c, 'w', 1) for c in marked.values()]
    seen = {str(t.cat) for t in pool}
    for _ in range(2):
        new = []
        for a in pool:
            for b in pool:
                try:
                    res = r.combine(a, b)
                    res += r.type_change(res)
                    res += r.type_raise(res)
                except Exception:      # noqa: BLE001 - judged when parsing
                    continue
                for t in res:
                    k = str(t.cat)
                    if k not in seen and len(k) < 40:
                        seen.add(k)
                        new.append(t)
        pool = (pool + new)[:140]
    UNIVERSE = sorted(seen)
    return UNIVERSE


def sentence(rng, names, n):
    out = []
    for i in range(n):
        k = rng.choice([1, 1, 2, 2, 3])
        cs = []
        while len(cs) < k:
            x = rng.choice(FREQ) if rng.random() < .55 else rng.choice(names)
            if x in names and x not in cs:
                cs.append(x)
        out.append([(x, rng.randint(-4000, 0)) for x in cs])
    if rng.random() < .02:
        out[rng.randrange(n)] = []
    return out


TEMPLATES = [
    ['NP', '(S[dcl]\\NP)/NP', 'NP'], ['NP[nb]/N', 'N', 'S[dcl]\\NP'], ['NP[nb]/N', 'N/N', 'N', '(S[dcl]\\NP)/NP', 'N'],
    ['NP', 'S[dcl]\\NP', '(S\\NP)\\(S\\NP)'], ['NP', '(S[dcl]\\NP)/NP', 'conj', '(S[dcl]\\NP)/NP', 'NP'],
    ['N', 'conj', 'N', 'S[dcl]\\NP'], ['NP', ',', 'NP', 'S[dcl]\\NP', '.'], ['NP', '((S[dcl]\\NP)/PP)/NP', 'NP', 'PP/NP', 'NP'],
    ['NP', '(NP\\NP)/(S[dcl]/NP)', 'NP', '(S[dcl]\\NP)/NP', 'S[dcl]\\NP'], ['NP', '(S[dcl]\\NP)/(S[b]\\NP)', '((S[b]\\NP)/PP)/NP', 'NP', 'PP'],
    ['NP', '(S[dcl]\\NP)/(S[b]\\NP)', '(S[b]\\NP)/NP', 'N'], ['NP', '((S[dcl]\\NP)/PP)/NP', 'N', 'PP', 'conj', 'NP', 'PP'],
    ['NP', '(S[dcl]\\NP)/NP', '(S\\NP)\\(S\\NP)', 'NP'], ['S/S', 'NP', 'S[dcl]\\NP', 'S\\S'], ['NP', 'S[pss]\\NP', 'S[dcl]\\NP'],
    ['NP', 'S[dcl]\\NP', 'S[dcl]\\S[dcl]', 'S\\S'], ['NP', 'S[dcl]\\NP', ';', 'NP', 'S[dcl]\\NP'], ['conj/PP', 'PP', 'N', 'S[dcl]\\NP'],
    ['NP', '(S[dcl]\\NP)/(S[b]\\NP)', '(((S[b]\\NP)/PP)/PP)/NP', 'N', 'PP', 'PP'], ['conj', 'N\\conj', 'S[dcl]\\NP'],
    ['NP', '((S[dcl]\\NP)/PP)/NP', '(S\\NP)\\(S\\NP)', 'N', 'PP'], ['NP', '(S[dcl]\\NP)/(S[b]\\NP)', '((S[b]\\NP)/PP)/NP', '(S\\NP)\\(S\\NP)', 'N', 'PP'],
    ['NP', 'S[dcl]\\NP', ',', 'conj', 'S[dcl]\\NP'], ['NP', 'S[dcl]\\NP', '(S\\NP)\\(S\\NP)', '(S\\NP)\\(S\\NP)'],
    ['NP', '(S\\NP)/(S\\NP)', '(S\\NP)/(S\\NP)', 'S[dcl]\\NP'], ['N/N', 'N/N', 'N/N', 'N'], ['N/N', 'N\\N'], ['NP[nb]/N', 'N/N', 'N\\N', 'S[dcl]\\NP'], ['N/N', 'N', 'N\\N'], ['NP', '(S[dcl]\\S[dcl])\\NP', 'S\\S']]


def tree(t):
    ch = [x for x in (t.left, t.right) if x]
    kids = [tree(x) for x in ch]
    return {'rule': t.rule.name, 'cat': real(t.cat), 's': num(t.score), 'w': t.word if not kids else '',
            'n': sum(k['n'] for k in kids) if kids else 1, 'ch': kids}


def num(x):
    return -99999999 if x != x or x < -90000 else round(x * 1000)


def case(rng, deep=False):
    w = World(rng)
    names = w.names
    uni = universe()
    sets = [a for a in uni if rng.random() < rng.choice([1, 1, .95])]
    barred = {(rng.choice(sets), rng.choice(sets)) for _ in range(rng.choice([0, 0, 40]))}
    both = [x for x in names if x in sets] or sets      # written as in the universe
    barred |= {(rng.choice(both), rng.choice(both)) for _ in range(rng.choice([0, 0, 5]))}
    pairs = [(a, b) for a in sets for b in sets if (a, b) not in barred]
    used = set(names)
    ids = {}
    cats = []
    pool = [x for x in uni if rng.random() < .6]
    for x in pool:
        cats.append((x, 'binary', [x]))
        if rng.random() < .4:
            cats.append((x + '[conj]', 'conj', [f'({x})\\({x})' if '/' in x or '\\' in x else f'{x}\\{x}']))
    for t in w.change:
        if t[2] is None:
            cats.append((f'{t[3]}::{t[1]}', 'unary', [t[3], t[1]]))
            for r in w.raising:
                if r[0] == t[3]:
                    p = bare(r[1])
                    cats.append((f'{p}::{t[3]}::{t[1]}', 'unary', [p, t[3], t[1]]))
    for r in w.raising:
        p = bare(r[1])
        cats.append((f'{p}::{r[0]}', 'unary', [p, r[0]]))
    rng.shuffle(cats)
    roots = None if rng.random() < .25 else rng.sample(['S[dcl]', 'NP', 'S', 'N', 'S[dcl]\\NP'], rng.randint(1, 4))
    beam = rng.choice([1, 2, 3, 100, 100])
    maxtrees = rng.choice([10 ** 6] * 8 + [5, 20])
    nocat, nospan = rng.randint(1, 4), rng.randint(1, 4)
    tagw = rng.choice([1, 1, 2, 0])
    marked = {k: MARKED[k] for k in MARKED if k in names or any(k in (t[3],) for t in w.change)}
    g = Grammar(marked, pairs, w.change, w.raising)
    ok, parser = attempt(lambda: ChartParser(g, [c[0] for c in cats], None, w.enf, maxtrees, beam, float(tagw),
                                             math.exp(-nocat), math.exp(-nospan)))
    if not ok:
        return {'grammar': {}, 'params': {}, 'events': [{'op': 'x', 'ok': False, 'err': 'refused:' + parser, 'tags': [], 'spans': [], 'words': []}]}
    ok, err = attempt(lambda: parser.set_root_cats(roots))
    if not ok:
        roots = None
    evs = []
    coarse = rng.random() < .25
    grain = (lambda x: round(x / 2000) * 2000) if coarse else (lambda x: x)
    for _ in range(3):
        if rng.random() < .75:
            t = [[(x, rng.randint(-3000, 0))] for x in rng.choice(TEMPLATES)]
            if any(x[0][0] not in names for x in t):
                t = sentence(rng, names, rng.randint(1, 5))
            else:
                for x in t:
                    for _ in range(rng.choice([0, 0, 1, 1, 2])):
                        y = rng.choice(names)
                        if all(y != z[0] for z in x):
                            x.append((y, rng.randint(-4000, 0)))
                    rng.shuffle(x)
        else:
            t = sentence(rng, names, rng.choice([1, 2, 3, 3, 4, 4, 5]))
        t = [[(x, grain(v)) for x, v in w_] for w_ in t]
        n = len(t)
        sent = ['w%d' % rng.randint(0, 9) for _ in range(n)]
        spans = {}
        dense = rng.choice([.2, .6, .95])
        for i in range(n):
            for j in range(i, n):
                if rng.random() < .97:
                    spans[i, j] = {k: grain(rng.randint(-6000, 3000)) for k in range(len(cats)) if rng.random() < dense}
        s = Sentence(sent, [[Supertag(a, b / 1000) for a, b in x] for x in t],
                     {k: {i: v / 1000 for i, v in d.items()} for k, d in spans.items()})
        ok, r = attempt(lambda: parser(s))
        e = {'op': 'parse', 'ok': ok, 'err': 'error:' + str(r) if not ok else '', 'words': sent,
             'tags': [[{'cat': cat(MARKED[a]), 's': b} for a, b in x] for x in t]}
        live = set()
        e['spans'] = [{'i': i + 1, 'j': j + 1, 'scores': [d.get(k, -100000000) for k in range(len(cats))]} for (i, j), d in spans.items()]
        if ok:
            ok2, ts = attempt(lambda: [tree(x) for x in r.root])
            e.update(ok=ok2, err='' if ok2 else 'error:' + str(ts), trees=ts if ok2 else [], rwords=list(r.words))
            if ok2 and (bool(r) != (len(ts) > 0) or len(r) != len(ts)):
                e.update(ok=False, err='result-truth')
        evs.append(e)
    gr = {'enf': w.enf, 'universe': [cat(a) for a in sets], 'barred': [[cat(a), cat(b)] for a, b in sorted(barred)],
          'raising': [{'from': cat(a), 'to': cat(b)} for a, b, _ in w.raising],
          'unary': [{'from': cat(t[1]), 'to': cat(MARKED[t[3]])} for t in w.change if t[2] is None],
          'lpunct': [{'punct': cat(t[1]), 'from': cat(t[2]), 'to': cat(MARKED[t[3]])} for t in w.change if t[2] is not None and t[1] in ',;:.'],
          'rpunct': [{'punct': cat(t[2]), 'from': cat(t[1]), 'to': cat(MARKED[t[3]])} for t in w.change if t[2] is not None and t[1] not in ',;:.']}
    return {'grammar': gr, 'events': evs,
            'params': {'tagw': tagw, 'nocat': -nocat * 1000, 'nospan': -nospan * 1000, 'beam': beam, 'rooted': roots is not None,
                       'maxtrees': min(maxtrees, 10000),
                       'roots': [cat(x) for x in roots or []],
                       'ids': [{'label': c[1], 'cats': [cat(x) for x in c[2]]} for c in cats]}}


def bare(s):
    """A marked-up category without its markup."""
    out, i = '', 0
    while i < len(s):
        if s[i] in '{<':
            i = s.index('}' if s[i] == '{' else '>', i) + 1
        else:
            out += s[i]
            i += 1
    return out[1:-1] if out.startswith('(') and closes(out) else out


def closes(s):
    d = 0
    for i, c in enumerate(s):
        d += (c == '(') - (c == ')')
        if d == 0:
            return i == len(s) - 1
    return False


class Item:
    """An item of a cell: all a cell looks at is category and score."""

    def __init__(self, cat, score):
        self.cat, self.score = cat, score


def cell_case(rng, Cell):
    beam = rng.choice([1, 2, 3, 5, 50])
    cell = Cell(beam)
    cats = 'abcdefghij'[:rng.randint(1, 10)]
    top, evs = rng.choice([1, 2, 3, 9]), []
    for _ in range(rng.randint(2, 12)):
        batch = [{'c': rng.choice(cats), 's': rng.randint(0, top)} for _ in range(rng.choice([0, 1, 1, 2, 4]))]
        top += rng.random() < .2

        def go():
            cell.add([Item(b['c'], float(b['s'])) for b in batch])
            return [{'c': t.cat, 's': int(t.score)} for t in cell.trees]
        ok, r = attempt(go)
        evs.append({'batch': batch, 'ok': ok, 'trees': r if ok else []})
    return {'beam': beam, 'events': evs}


def run(chk):
    rng = chk.rng
    try:
        from lambeq.bobcat.parser import Cell
        Cell(1).add([Item('a', 0.)])
    except Exception:      # noqa: BLE001 - charts need not be made of such cells
        Cell = None
    if Cell:
        chk.conform('P13Cell', [cell_case(rng, Cell) for _ in range(chk.n(2000, 20000))], label='cells')
    chk.conform('P13Trace', [case(rng) for _ in range(chk.n(300, 6000))], label='sentences')


if __name__ == '__main__':
    main('P13', run)

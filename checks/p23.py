"""P23: discourse circuits of texts given as trees and coreference clusters."""
import json, re, sys, types
sys.path.insert(0, '/verif')
from lambeq.backend.grammar import Box, Cup, Diagram, Frame, Id, Spider, Swap, Ty, Word
from lambeq.experimental.discocirc import (CoreferenceResolver, DisCoCircReader, MaverickCoreferenceResolver,
                                           SpacyCoreferenceResolver, TreeRewriteRule, TreeRewriter)
from lambeq.text2diagram import BobcatParser, OncillaParser, PregroupTreeNode
from vlib.core import attempt, main

n, s, p = Ty('n'), Ty('s'), Ty('p')
RULES = {'determiner': ([('n', 0)], ['a', 'an', 'the'], 1, 'last'),
         'auxiliary': ([('n', 1), ('s', 0)], ['has', 'had', 'have', 'did', 'does', 'do'], 1, 'last'),
         'noun_modification': ([('n', 0)], [], -1, 'merge'),
         'verb_modification': ([('n', 1), ('s', 0)], [], -1, 'merge'),
         'sentence_modification': ([('s', 0)], [], -1, 'merge')}


class Texts(CoreferenceResolver):
    def __init__(self, toks, corefs):
        self.toks, self.corefs = toks, corefs

    def tokenise_and_coref(self, text):
        return [list(x) for x in self.toks], [[list(y) for y in x] for x in self.corefs]


class Trees(OncillaParser):
    def __init__(self, sents):
        self.sents = sents

    def _sentence2pregrouptree(self, sentence, tokenised=False, break_cycles=False):
        assert tokenised
        self.flags = {break_cycles} | getattr(self, 'flags', set())
        return to_node(self.sents[tuple(sentence)])


class Diagrams(BobcatParser):
    def __init__(self, sents):
        self.sents = sents

    def sentence2diagram(self, sentence, tokenised=False, suppress_exceptions=False):
        assert tokenised
        return self.sents[tuple(sentence)]


def to_ty(t):
    out = Ty()
    for b, z in t:
        x = Ty(b)
        for _ in range(abs(z)):
            x = x.r if z > 0 else x.l
        out = out @ x
    return out


def to_node(t):
    """t: [word, position in the sentence, position in the parse, type, children]"""
    return PregroupTreeNode(t[0], t[2], to_ty(t[3]), children=[to_node(c) for c in t[4]])


def tlatree(t):
    return {'w': t[0].split(), 'low': t[0].lower().split(), 'o': t[1], 't': [{'b': b, 'z': z} for b, z in t[3]], 'ch': [tlatree(c) for c in t[4]]}


def label(box):
    m = re.fullmatch(r'(.*?)(?:\$_\{(\w+)\}\$)?', box.name)
    return m[1].split(), m[2] or ''


def shape(box):
    w, sfx = label(box)
    comps = []
    if isinstance(box, Frame):
        for c in box.components:
            ok = isinstance(c, Box) or len(c.boxes) == 1 and not c.layers[0].left and not c.layers[0].right
            comps.append(shape(c if isinstance(c, Box) else c.boxes[0]) if ok else {'w': ['?'], 'sfx': '', 'dom': [], 'cod': [], 'comps': []})
    return {'w': w, 'sfx': sfx, 'dom': [str(x) for x in box.dom], 'cod': [str(x) for x in box.cod], 'comps': comps}


NOTHING = {'w': [], 'sfx': '', 'dom': [], 'cod': [], 'comps': []}


def wires(d):
    """The boxes of a diagram with the wires they take and give."""
    cur, new, evs = [], 0, []
    d = d.to_diagram()
    assert not d.dom
    for y in d.layers:
        b, k, m = y.box, len(y.left), len(y.box.dom)
        ins = cur[k:k + m]
        if isinstance(b, Swap):
            outs = ins[::-1]
        else:
            outs = [new + 1 + q for q in range(len(b.cod))]
            new += len(b.cod)
            sp = isinstance(b, Spider)
            evs.append({'k': 'spider' if sp else 'box' if not isinstance(b, Diagram) else 'other', 'ins': ins, 'outs': outs, 'g': NOTHING if sp else shape(b)})
        cur[k:k + m] = outs
    return evs, cur, [str(x) for x in d.cod]


def options(rng, words):
    r = rng.random()
    rules = (None if r < .2 else [] if r < .45 else ['determiner', 'auxiliary'] if r < .55 else
             [rng.choice(list(RULES)) for _ in range(rng.randint(1, 3))])
    custom = []
    if rng.random() < .2:
        t = rng.choice(['any', [('n', 0)], [('s', 0)], [('n', 1), ('s', 0)]])
        custom = [(t, rng.sample(['a', 'the', 'big', 'has', 'quickly'], 2) if rng.random() < .5 else [], rng.choice([-1, 1, 2]), rng.choice(['merge', 'first', 'last']))]
    names = ['determiner', 'auxiliary'] if rules is None else list(rules)
    if custom and rules is None:
        rules = []
        names = []
    return {'sandwich': rng.random() < .5, 'labels': rng.random() < .7,
            'pruned': rng.sample(words, min(len(words), rng.choice([0, 0, 1, 1, 2]))), 'freq': rng.choice([1, 1, 1, 2, 3]),
            'names': names, 'custom': custom, 'default': rules is None, 'cyc': rng.random() < .5}


def ev_text(x, o, how=None):
    how = how or {}
    rules = None if o['default'] else [*o['names'], *(TreeRewriteRule(*(False if t == 'any' else to_ty(t), set(w) or None, None if m < 0 else m, j)) for t, w, m, j in o['custom'])]
    reader = DisCoCircReader(parser=x['parser'], coref_resolver=Texts(x['toks'], x['corefs']))
    kw = dict(sandwich=o['sandwich'], break_cycles=o['cyc'], pruned_nouns=list(o['pruned']), min_noun_freq=o['freq'], foliated_frame_labels=o['labels'])
    if not (o['names'] == ['determiner', 'auxiliary'] and o.get('plain')):
        kw['rewrite_rules'] = rules
    ok, d = attempt(lambda: reader.text2circuit(' '.join(' '.join(t) for t in x['toks']), **kw))
    evs, final, outs = wires(d) if ok else ([], [], [])
    cyc = not isinstance(x['parser'], Trees) or x['parser'].flags == {o['cyc']}
    x['parser'].flags = set()
    spec = [RULES[k] for k in o['names']] + o['custom']
    return {'op': 'sandwich' if o['sandwich'] else 'frames', 'ok': ok, 'err': '' if ok else str(d), 'evs': evs, 'final': final, 'outs': outs, 'cyc': cyc,
            'o': {'sandwich': o['sandwich'], 'labels': o['labels'], 'pruned': list(o['pruned']), 'freq': o['freq'],
                  'rules': tlarules(spec)}}


def tlarules(spec):
    return [{'any': t == 'any', 't': [] if t == 'any' else [{'b': b, 'z': z} for b, z in t], 'words': [[w] for w in ws], 'depth': m, 'join': j} for t, ws, m, j in spec]


def case(x, events):
    return {'sents': [tlatree(t) for t in x['trees']], 'toks': x['toks'], 'corefs': x['corefs'], 'events': events}


# ---- random texts
N, S, V = [('n', 0)], [('s', 0)], [('n', 1), ('s', 0)]
NAMES = ['Alice', 'Bob', 'cat', 'dog', 'she', 'Claire']
TYPES = [(V, 5), (S, 2), ([('s', 0), ('n', -1)], 1), ([('n', 1), ('n', 0)], 1), ([('n', 1), ('s', 0), ('n', -1)], 1), ([('p', 1), ('s', 0)], 1), ([('s', 1), ('s', 0)], 1)]


class Sentence:
    def __init__(self, rng, size, dup):
        self.rng, self.left, self.nodes, self.dup = rng, size, [], dup

    def noun(self):
        r = self.rng
        if r.random() < .25:
            return [r.choice(['the', 'The', 'a', 'big', 'mother', 'old']), None, None, N, [self.noun()] + ([self.noun()] if r.random() < .2 else [])]
        return [r.choice(NAMES), None, None, N, []]

    def clause(self, t, depth):
        r = self.rng
        kids = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            if self.left <= 0:
                break
            self.left -= 1
            if depth < 4 and r.random() < .45:
                kids.append(self.clause(r.choices([x for x, _ in TYPES], [w for _, w in TYPES])[0] if r.random() < .7 else t, depth + 1))
            else:
                kids.append(self.noun())
        return [r.choice(['likes', 'runs', 'has', 'Has', 'does', 'quickly', 'that', 'says', 'knows']), None, None, list(t), kids]


def number(rng, t):
    """give the nodes of a tree positions in a sentence, in some order, with words the parser does not see between them"""
    nodes = []

    def go(y):
        if not any(y is k for k in nodes):
            nodes.append(y)
        for k in y[4]:
            go(k)
    go(t)
    order = nodes[:]
    if rng.random() < .8:
        rng.shuffle(order)
    toks = []
    for k, y in enumerate(order):
        if rng.random() < .15:
            toks.append(rng.choice([',', ';']))
        y[1], y[2] = len(toks), k
        toks.append(y[0])
    if rng.random() < .6:
        toks.append('.')
    return toks


def share(rng, t):
    """let a noun be found in two places (a cycle that was not broken)"""
    leaves = []

    def go(y):
        for q, k in enumerate(y[4]):
            leaves.append((y, q)) if k[3] == N and not k[4] else go(k)
    go(t)
    if len(leaves) > 1:
        (a, i), (b, j) = rng.sample(leaves, 2)
        b[4][j] = a[4][i]


def random_text(rng, size):
    trees, toks = [], []
    while len(trees) < size:
        y = Sentence(rng, rng.randint(1, 6), 0)
        r = rng.random()
        t = y.noun() if r < .15 else y.clause(S if r < .85 else V if r < .95 else N, 1)
        if rng.random() < .15:
            share(rng, t)
        k = number(rng, t)
        if k in toks:
            continue
        trees.append(t)
        toks.append(k)
    return with_corefs(rng, trees, toks)


def leaves_of(t):
    return [t] if t[3] == N and not t[4] else [z for k in t[4] for z in leaves_of(k)]


def with_corefs(rng, trees, toks, parts=None):
    ms = sorted({(i, q[1]) for i, t in enumerate(trees) for q in leaves_of(t)})
    free, corefs = ms[:], []
    while len(free) > 1 and rng.random() < .75:
        k = min(len(free), rng.choice([2, 2, 3, 4]))
        cl = sorted(rng.sample(free, k))
        free = [m for m in free if m not in cl]
        corefs.append([[j for h, j in cl if h == i] for i in range(len(toks))])
    for i, j in ms:
        if rng.random() < .97:
            corefs.append([[j] if h == i else [] for h in range(len(toks))])
    return {'trees': trees, 'toks': toks, 'corefs': corefs, 'words': sorted({toks[i][j] for i, j in ms})}


def texts(ck, cases, count):
    rng = ck.rng
    for _ in range(count):
        x = random_text(rng, rng.choice([1, 1, 2, 2, 3, 4]))
        x['parser'] = Trees({tuple(k): t for k, t in zip(x['toks'], x['trees'])})
        complete = len([c for c in x['corefs'] if sum(map(len, c)) == 1]) >= len({(i, q[1]) for i, t in enumerate(x['trees']) for q in leaves_of(t)})
        es = []
        for _ in range(4):
            o = options(rng, x['words'])
            if not complete:
                o['freq'] = 1
            es.append(ev_text(x, o))
        cases.append(case(x, es))


# ---- texts met in the model
def modelled(ck, runs):
    cases = []
    for run in runs:
        x, o = run['txt'], run['opt']

        def tree(t):
            return [' '.join(t['w']), t['o'], t['o'], [(q['b'], q['z']) for q in t['t']], [tree(k) for k in t['ch']]]
        trees = [tree(t) for t in x['sents']]
        toks = x['toks']
        if len({tuple(k) for k in toks}) < len(toks) and any(a != b and j == k for a, j in zip(trees, toks) for b, k in zip(trees, toks)):
            continue
        y = {'trees': trees, 'toks': toks, 'corefs': x['corefs'], 'parser': Trees({tuple(k): t for k, t in zip(toks, trees)})}
        o = {'sandwich': o['sandwich'], 'labels': o['labels'], 'pruned': o['pruned'], 'freq': o['freq'], 'names': [], 'default': False, 'cyc': True,
             'custom': [([(q['b'], q['z']) for q in r['t']], [w[0] for w in r['words']], r['depth'], r['join']) for r in o['rules']]}
        cases.append(case(y, [ev_text(y, o)]))
    return cases


# ---- sentences given as pregroup diagrams
def drawn_texts(ck, cases, count):
    rng = ck.rng
    while count:
        trees, toks, ds = [], [], {}
        for _ in range(rng.choice([1, 2, 2, 3])):
            d, words = simple(rng)
            if words in toks:
                continue
            toks.append(words)
            ds[tuple(words)] = d
        flag = rng.random() < .6
        ok, ts = attempt(lambda: [from_node(ds[tuple(k)].to_pregroup_tree(break_cycles=flag)) for k in toks])
        if not ok:
            raise ValueError(f'no tree: {ts}')
        x = with_corefs(rng, ts, toks)
        x['parser'] = Diagrams(ds)
        es = []
        for _ in range(3):
            o = options(rng, x['words'])
            o['freq'], o['cyc'] = 1, flag
            es.append(ev_text(x, o))
        cases.append(case(x, es))
        count -= 1


def from_node(t):
    return [t.word, t.ind, t.ind, [(o.name, o.z) for o in t.typ], [from_node(k) for k in t.children]]


def simple(rng):
    """a pregroup sentence: noun phrases, a verb, perhaps a relative clause (which has a cycle) or an argument missing"""
    ws = []

    def add(w, t):
        ws.append((w, t))

    def np(depth=0):
        r = rng.random()
        if r < .25:
            add(rng.choice(['the', 'big']), n @ n.l)
            np(1)
        elif r < .45 and not depth:
            add(rng.choice(NAMES), n)
            add('who', n.r @ n @ s.l @ n)
            vp()
        else:
            add(rng.choice(NAMES), n)

    def vp():
        r = rng.random()
        if r < .25:
            add('quickly', (n.r @ s) @ (n.r @ s).l)
            vp()
        elif r < .5:
            add('runs', n.r @ s)
        else:
            add('likes', n.r @ s @ n.l)
            np(1)
    if rng.random() < .9:
        np()
    vp()
    words = [w for w, _ in ws]
    cur = Ty().tensor(*(t for _, t in ws))
    d = Id().tensor(*(Word(w, t) for w, t in ws))
    # nearest adjoint pairs are contracted, from left to right
    todo = True
    while todo:
        todo = False
        for i in range(len(cur) - 1):
            if cur[i].r == cur[i + 1] or cur[i] == cur[i + 1].l:
                d = d >> Id(cur[:i]) @ Cup(cur[i], cur[i + 1]) @ Id(cur[i + 2:])
                cur = cur[:i] @ cur[i + 2:]
                todo = True
                break
    return d, words


# ---- the parts: rewriting of trees, dictionaries of mentions, resolvers
def ev_rewrite(rng, t):
    o = options(rng, ['x'])
    rules = None if o['default'] else [*o['names'], *(TreeRewriteRule(*(False if q == 'any' else to_ty(q), set(w) or None, None if m < 0 else m, j)) for q, w, m, j in o['custom'])]
    spec = [RULES[k] for k in o['names']] + o['custom']
    if rules and rng.random() < .4:
        def go():
            w = TreeRewriter(rules[:1])
            w.add_rules(*rules[1:])
            return w(to_node(t))
    else:
        def go():
            return TreeRewriter(rules)(to_node(t))
    ok, out = attempt(go)
    return {'op': 'rewrite', 'ok': ok, 'err': '' if ok else str(out), 'tree': tlatree(from_node(to_node(t))), 'out': tlatree(from_node(out)) if ok else tlatree(t),
            'o': {'rules': tlarules(spec)}}


def ev_unknown(rng):
    ok, out = attempt(lambda: TreeRewriter([rng.choice(list(RULES)), rng.choice(['determiners', 'foo', ''])]))
    return {'op': 'unknown', 'ok': ok, 'err': '' if ok else str(out)}


def ev_dict(x):
    ok, d = attempt(lambda: Texts(x['toks'], x['corefs']).dict_from_corefs(x['corefs']))
    return {'op': 'dict', 'ok': ok, 'err': '' if ok else str(d), 'pairs': [[list(k), list(v)] for k, v in d.items()] if ok else []}


def parts(ck, cases, count):
    rng = ck.rng
    for _ in range(count):
        x = random_text(rng, rng.choice([1, 2, 3]))
        cases.append(case(x, [ev_dict(x), *(ev_rewrite(rng, chain(rng, t)) for t in x['trees'] for _ in range(2)), ev_unknown(rng)]))


def chain(rng, t):
    """a tree with more words that have a single child of their own type"""
    t = [*t[:4], [chain(rng, k) for k in t[4]]]
    while rng.random() < .4:
        t = [rng.choice(['the', 'a', 'has', 'Does', 'big', 'quickly', 'The']), t[1] + 20, t[2] + 20, t[3], [t]]
    return t


class Tok:
    def __init__(self, i, word, pos):
        self.i, self.word, self.pos_ = i, word, pos

    def __str__(self):
        return self.word


class Sent(list):
    start = end = 0


class Doc:
    def __init__(self, toks, pos, spans):
        self.all, k = [], 0
        for ws, ps in zip(toks, pos):
            sent = Sent(Tok(k + q, w, p_) for q, (w, p_) in enumerate(zip(ws, ps)))
            sent.start, sent.end = k, k + len(ws)
            k += len(ws)
            self.all.append(sent)
        self.spans = {f'coref_clusters_{k}': [types.SimpleNamespace(start=a, end=b + 1) for a, b in c] for k, c in enumerate(spans)}

    @property
    def sents(self):
        yield from self.all


def resolvers(ck, cases, count):
    rng = ck.rng
    for _ in range(count):
        toks = [[rng.choice(NAMES + ['the', 'runs', ',']) for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(1, 4))]
        pos = [[rng.choice(['NOUN', 'PROPN', 'PRON', 'VERB', 'DET', 'PUNCT']) for _ in ws] for ws in toks]
        starts = [sum(map(len, toks[:k])) for k in range(len(toks))]
        spans, used = [], set()
        for _ in range(rng.randint(0, 3)):
            cl = []
            for _ in range(rng.randint(1, 4)):
                i = rng.randrange(len(toks))
                a = rng.randrange(len(toks[i]))
                b = min(len(toks[i]) - 1, a + rng.choice([0, 0, 1, 2, 3]))
                if not used & {(i, q) for q in range(a, b + 1)}:
                    used |= {(i, q) for q in range(a, b + 1)}
                    cl.append((i, a, b))
            if cl:
                spans.append(sorted(cl))
        flat = [[(starts[i] + a, starts[i] + b) for i, a, b in c] for c in spans]
        es = []
        for kind in (MaverickCoreferenceResolver, SpacyCoreferenceResolver):
            r = kind.__new__(kind)
            seen = []

            def nlp(text):
                seen.append(text)
                return Doc(toks, pos, flat)
            r.nlp = nlp
            r.model = types.SimpleNamespace(predict=lambda ws: {'clusters_token_offsets': flat} if ws == toks else 1 / 0)
            ok, out = attempt(lambda: r.tokenise_and_coref('some   text\n to \t read'))
            es.append({'op': 'maverick' if kind is MaverickCoreferenceResolver else 'spacy', 'ok': ok, 'err': '' if ok else str(out),
                       'toks': out[0] if ok else [], 'corefs': out[1] if ok else [], 'pos': pos, 'clean': seen == ['some text to read'],
                       'spans': [[{'i': i, 'a': a, 'b': b} for i, a, b in c] for c in spans]})
        cases.append({'sents': [], 'toks': toks, 'corefs': [], 'events': es})


def check(ck):
    runs = [json.loads(z.split('|', 1)[1].replace('\\"', '"')) for z in ck.model('P23Model', cfg='P23ModelThorough.cfg' if ck.thorough else 'P23Model.cfg').prints if z.startswith('@@RUN|')]
    ck.conform('P23Trace', modelled(ck, runs if len(runs) < 20000 else ck.rng.sample(runs, 20000)), label='texts of the model')
    cases = []
    parts(ck, cases, ck.n(150, 1500))
    resolvers(ck, cases, ck.n(150, 1500))
    drawn_texts(ck, cases, ck.n(80, 800))
    ck.conform('P23Trace', cases, label='parts')
    cases = []
    texts(ck, cases, ck.n(700, 6000))
    ck.conform('P23Trace', cases, label='random texts')


if __name__ == '__main__':
    main('P23', check)

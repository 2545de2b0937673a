"""P14: batches of sentences, judged by spec/P14Trace.tla; the patterns of
good, failing and empty sentences come from spec/P14Model.tla."""
import contextlib, io, json, math, os, re, sys
sys.path.insert(0, '/verif')
import torch
from tokenizers import Tokenizer, models, normalizers, pre_tokenizers, processors
from transformers import PreTrainedTokenizerFast
from transformers.modeling_outputs import BaseModelOutput
from lambeq import BobcatParser, CCGBankParser, OncillaParser, TreeReader, cups_reader, spiders_reader, stairs_reader
from lambeq.bobcat import BertForChartClassification, ChartParser, Grammar, Tagger
from lambeq.bobcat.tagger import ChartClassifierConfig, ChartClassifierOutput
from lambeq.oncilla.parser import ParserOutput
from lambeq.text2diagram.ccg_parser import CCGParser
from lambeq.text2diagram.ccg_tree import CCGTree
from vlib.core import attempt, main
from checks.p13 import MARKED

# ---- a tiny supertagger --------------------------------------------------
# word -> pieces; the first piece decides the categories
LEX = {
    'ann': ['NP'], 'bob': ['NP'], 'cats': ['N'], 'dogs': ['N', 'NP'], 'the': ['NP[nb]/N'], 'big': ['N/N'],
    'sleeps': ['S[dcl]\\NP'], 'sees': ['(S[dcl]\\NP)/NP'], 'likes': ['(S[dcl]\\NP)/NP'], 'and': ['conj'], 'often': ['(S\\NP)\\(S\\NP)'],
    '.': ['.'], ',': [','], 'odd': ['X'],
}
GOOD = ['ann sleeps', 'bob sees ann', 'the cats', 'the big cats', 'ann likes the big dogs', 'bob', 'ann sleeps .', 'the dogs sleeps often',
        'ann sees bob and dogs', 'bob likes ann often']
BAD = ['sleeps ann', 'sees sees', 'odd', 'likes', 'and and', 'ann the', 'the', 'big big big', 'ann ann ann ann ann',
       'bob sees the the']
LONG = ['ann sleeps often often often often often often often often often often', 'the big big big big big big big big big big big cats',
        'thecats sleepsoften bobann thecats sleepsoften bobann ann sleeps often often']
EMPTY = ['', ' ', '\t \n']
PIECES = ['[PAD]', '[UNK]', '[CLS]', '[SEP]'] + sorted(LEX) + ['##' + w for w in sorted(LEX)]
TAGS = ['X'] + [c for c in ['N', 'NP', 'NP[nb]/N', 'N/N', 'S[dcl]\\NP', '(S[dcl]\\NP)/NP', 'conj', '(S\\NP)\\(S\\NP)', '.', ',']]
CATS = ['PP', 'S[dcl]', 'NP', 'N', 'S[dcl]\\NP', '(S[dcl]\\NP)/NP', 'NP[conj]', 'N/N']
ROOTS = ['S[dcl]', 'NP', 'N', 'conj']
V = len(PIECES)
LEAK = .02


class Embed(torch.nn.Module):
    """A stand-in for BERT: the token itself plus a trace of all tokens that
    are attended to."""
    def forward(self, input_ids, attention_mask=None, **kw):
        one = torch.nn.functional.one_hot(input_ids, V).float()
        m = torch.ones(input_ids.shape) if attention_mask is None else attention_mask
        return BaseModelOutput(one + LEAK * (one * m.unsqueeze(-1)).sum(-2, keepdim=True))


class Scores:
    def __init__(self, rng, sharp):
        g = torch.Generator().manual_seed(rng.randrange(10 ** 6))
        self.tw = torch.randn(len(TAGS), V, generator=g) * (.3 if sharp else 1.5)
        self.sw = torch.randn(len(CATS), 2 * V, generator=g)
        self.sb = torch.zeros(len(CATS))
        if sharp:
            self.sb[0] = -30
            for w, cs in LEX.items():
                for k, c in enumerate(cs):
                    self.tw[TAGS.index(c), PIECES.index(w)] += 9 - 2 * k


def tokeniser(maxlen):
    t = Tokenizer(models.WordPiece({p: i for i, p in enumerate(PIECES)}, unk_token='[UNK]'))
    t.normalizer = normalizers.BertNormalizer()
    t.pre_tokenizer = pre_tokenizers.BertPreTokenizer()
    t.post_processor = processors.TemplateProcessing(single='[CLS] $A [SEP]', special_tokens=[('[CLS]', 2), ('[SEP]', 3)])
    return PreTrainedTokenizerFast(tokenizer_object=t, pad_token='[PAD]', unk_token='[UNK]', cls_token='[CLS]', sep_token='[SEP]',
                                   model_max_length=maxlen)


class Model(BertForChartClassification):
    all_tied_weights_keys = {}     # what transformers 5 wants of a model that does not use post_init


def build_model(sc):
    conf = ChartClassifierConfig(tags=TAGS, cats=CATS, vocab_size=V, hidden_size=V, num_hidden_layers=0, num_attention_heads=1,
                                 intermediate_size=2, max_position_embeddings=8)
    m = Model(conf).eval()
    m.bert = Embed()
    with torch.no_grad():
        m.tag_classifier.weight.copy_(sc.tw)
        m.tag_classifier.bias.zero_()
        m.span_classifier.weight.copy_(sc.sw)
        m.span_classifier.bias.copy_(sc.sb)
    return m


def pieces(w):
    """Greedy longest-match word pieces of what is between punctuation, or
    [UNK]."""
    cut = re.findall(r'[^-.,]+|[-.,]', w)
    if len(cut) > 1:
        return [p for x in cut for p in pieces(x)]
    out, i = [], 0
    while i < len(w):
        for j in range(len(w), i, -1):
            p = ('##' if i else '') + w[i:j]
            if p in PIECES:
                out.append(p)
                i = j
                break
        else:
            return ['[UNK]']
    return out


def expected(sc, words):
    """Log probabilities of every word and span, computed from the tables."""
    ids = [[PIECES.index(p) for p in pieces(w)] for w in words]
    tot = torch.zeros(V)
    for i in [2, 3] + [x for w in ids for x in w]:
        tot[i] += LEAK
    hid = []
    for w in ids:
        h = tot.clone()
        h[w[0]] += 1
        hid.append(h)
    q = lambda v: [round(float(x) * 10000) for x in v.log_softmax(-1)]
    tags = [q(sc.tw @ h) for h in hid]
    spans = [{'x': i, 'y': j, 'sc': q(sc.sw @ torch.cat([hid[i], hid[j]]) + sc.sb)} for i in range(len(words)) for j in range(i, len(words))]
    return tags, spans


# ---- parsers -------------------------------------------------------------

class Bobcat(BobcatParser):
    def __init__(self, tagger, parser, verbose):
        self.tagger, self.parser, self.verbose, self.root_cats = tagger, parser, verbose, None


def grammar():
    names = [t for t in TAGS if t in MARKED]
    marked = {k: MARKED[k] for k in names}
    uni = names + ['S[dcl]', 'NP\\NP', 'N\\N', 'S[X]/(S[X]\\NP)', 'S[dcl]/NP', 'NP[nb]', 'S/(S\\NP)']
    pairs = [(a, b) for a in uni for b in uni if 'X' not in (a, b)]
    return Grammar(marked, pairs, [(1, 'N', None, 'NP', False)], [('NP', '(S[X]{Y}/(S[X]{Y}\\NP{_}){Y}){Y}', '+')])


class OncillaModel:
    def __init__(self, table):
        self.table = table

    def _sentence2pred(self, sent, tok):
        return self.table[tuple(sent)](sent)


class Oncilla(OncillaParser):
    def __init__(self, table, verbose):
        self.model, self.tokenizer, self.verbose = OncillaModel(table), None, verbose


def pred(types, parents):
    return lambda s: ParserOutput(list(s), [[t] for t in types], [[p] for p in parents])


def boom(s):
    raise RuntimeError('model failure')


ONC = {
    ('ann', 'sleeps'): pred(['n', 's'], [1, -1]), ('bob', 'sees', 'ann'): pred(['n', 's', 'n'], [1, -1, 1]), ('cats',): pred(['n'], [-1]),
    ('the', 'dogs', 'sleep'): pred(['n', 'n', 's'], [2, 0, -1]), ('ann', 'and', 'bob', 'sleep'): pred(['n', 'n', 'n', 's'], [1, 3, 1, -1]),
    ('x',): boom, ('two', 'roots'): pred(['n', 's'], [-1, -1]), ('no', 'root'): pred(['n', 's'], [0, 0]), (): boom,
    ('bad', 'type'): pred(['n'], [1, -1]), ('none',): pred([], []),
}
ONCGOOD = ['ann sleeps', 'bob sees ann', 'cats', 'the dogs sleep', 'ann and bob sleep', 'ann sleeps .', 'cats .']
ONCBAD = ['x', 'two roots', 'no root', '.', 'bad type', 'x .']

CBGOOD = ['(<L N NN NN cats N>)', '(<T S[dcl] 0 2> (<L NP NNP NNP ann NP>) (<L S[dcl]\\NP VBZ VBZ sleeps S[dcl]\\NP>) )',
          '(<T NP 0 1> (<L N NN NN dogs N>) )', '(<T NP[nb] 0 2> (<L NP[nb]/N DT DT the NP[nb]/N>) (<L N NN NN dogs N>) )',
          '(<T S[dcl] 0 2> (<L NP NNP NNP bob NP>) (<T S[dcl]\\NP 0 2> (<L (S[dcl]\\NP)/NP VBZ VBZ sees (S[dcl]\\NP)/NP>) (<L NP NNP NNP -LRB- NP>) ) )']
CBWORDS = [['cats'], ['ann', 'sleeps'], ['dogs'], ['the', 'dogs'], ['bob', 'sees', '(']]
CBBAD = ['(<L N NN NN cats N', '', 'nonsense', '(<L Q NN NN cats Q>)', '(<L N NN NN cats N>)(<L N NN NN dogs N>)',
         '(<T S[dcl] 0 2> (<L NP NNP NNP ann NP>) (<L S[dcl]\\NP VBZ VBZ sleeps S[dcl]\\NP>) ) x', '(<T S[dcl] 0 2> (<L NP NNP NNP ann NP>)']
# a derivation that has no diagram
CBNODIAG = ['(<T S[dcl] 0 2> (<L NP NNP NNP ann NP>) (<L NP NNP NNP bob NP>) )']
CBNOWORDS = [['ann', 'bob']]


def ident(r):
    if r is None:
        return None
    if isinstance(r, CCGTree):
        return json.dumps(r.to_json(), sort_keys=True)
    return repr(r) + '|' + str(getattr(r, 'dom', '')) + '|' + str(getattr(r, 'cod', ''))


def wordsof(r):
    if isinstance(r, CCGTree):
        return [t.text for t in leaves(r)]
    from lambeq.backend.grammar import Word
    return [b.name for b in r.boxes if isinstance(b, Word)]


def leaves(t):
    return [t] if t.is_leaf else [x for c in t.children for x in leaves(c)]


class Book:
    """Answers as numbers; what a sentence gives on its own."""
    def __init__(self):
        self.ids, self.alone = {}, {}

    def num(self, r):
        if r is None:
            return 0
        if isinstance(r, (str, list)):
            return self.ids.setdefault('tok:' + json.dumps(r), len(self.ids) + 1)
        return self.ids.setdefault(ident(r), len(self.ids) + 1)

    def single(self, key, make, sent, kind, words):
        if (key, str(sent)) not in self.alone:
            ok, r = quiet(lambda: make(sent, False))
            ok2, r2 = quiet(lambda: make(sent, True))
            d = {'failed': not ok, 'supnone': ok2 and r2 is None, 'res': self.num(r) if ok else 0,
                 'got': wordsof(r) if ok and r is not None and words is not None else []}
            if ok and r is None:
                d['failed'] = False
            self.alone[key, str(sent)] = d
        return dict(self.alone[key, str(sent)], kind=kind, words=words or [], haswords=words is not None)


def quiet(fn):
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return attempt(fn)


def batch(book, key, one, many, sents, kinds, words, sup):
    """One batch.  one(sent, sup) and many(sents, sup)."""
    given = [list(s) if isinstance(s, list) else s for s in sents]
    ok, out = quiet(lambda: many(sents, sup))
    got = []
    if ok:
        got = [book.num(r) for r in out]
    return {'k': 'batch', 'sup': sup, 'raised': not ok, 'err': '' if ok else str(out), 'out': got, 'same': sents == given,
            'text': json.dumps(given),
            'sents': [book.single(key, one, s, k, w) for s, k, w in zip(given, kinds, words)]}


def pick(rng, kinds, good, bad, goodwords=None):
    out, ws = [], []
    for k in kinds:
        if k == 'good':
            i = rng.randrange(len(good))
            out.append(good[i])
            ws.append(goodwords[i] if goodwords else good[i].split())
        elif k == 'bad':
            out.append(rng.choice(bad))
            ws.append(None)
        else:
            out.append(rng.choice(EMPTY))
            ws.append(None)
    return out, ws


VERB = ['suppress', 'text', 'progress']


def bobcat_cases(chk, runs):
    rng = chk.rng
    sc = Scores(rng, True)
    model = build_model(sc)
    g = grammar()
    cases = []
    book = Book()
    ctor = lambda verb='suppress', bs=1: Bobcat(Tagger(model, tokeniser(12), bs, 2, .05), ChartParser(g, CATS, ROOTS, False, 10 ** 6, 100, 1.0, .5, .5), verb)
    for run in runs:
        kinds, sup, bs = run['kinds'], run['sup'], run['bs']
        api = rng.choice(['trees', 'diagrams'])
        planar, collapse = rng.random() < .3, rng.random() < .7
        tokd = rng.random() < .4
        bad = BAD + LONG * 2
        sents, ws = pick(rng, kinds, GOOD, bad)
        if tokd:
            sents = [s.split() for s in sents]
            for i, k in enumerate(kinds):      # a token without any word piece
                if k == 'bad' and rng.random() < .3:
                    sents[i] = rng.choice([['ann', ''], ['', 'sleeps'], ['ann', 'sleeps', '\x01'], ['']])
        parser = ctor(rng.choice(VERB), bs)
        verb = rng.choice([None] + VERB)
        if api == 'trees':
            one = lambda s, u: ctor().sentence2tree(s, tokenised=tokd, suppress_exceptions=u)
            many = lambda ss, u: parser.sentences2trees(ss, tokenised=tokd, suppress_exceptions=u, verbose=verb)
        else:
            one = lambda s, u: ctor().sentence2diagram(s, tokenised=tokd, planar=planar, collapse_noun_phrases=collapse, suppress_exceptions=u)
            many = lambda ss, u: parser.sentences2diagrams(ss, tokenised=tokd, planar=planar, collapse_noun_phrases=collapse,
                                                           suppress_exceptions=u, verbose=verb)
        if api == 'diagrams':
            ws = [[x for x in w if x not in '.,'] if w else w for w in ws]
        ev = batch(book, f'{api}{tokd}{planar}{collapse}', one, many, sents, kinds, ws, sup)
        evs = [ev]
        if rng.random() < .3:        # the same parser again
            evs.append(batch(book, f'{api}{tokd}{planar}{collapse}', one, many, [list(s) if tokd else s for s in sents], kinds, ws, sup))
        cases.append({'api': 'bobcat-' + api, 'events': evs})
    return cases


def tag_cases(chk, n):
    rng = chk.rng
    cases = []
    for _ in range(n):
        sc = Scores(rng, rng.random() < .4)
        k, sk = rng.choice([0, 1, 2, 3, 100]), rng.choice([0, 1, 2, 100])
        p, sp = rng.choice([0, 0.01, .1, .5, .95, 1]), rng.choice([0, 0.01, .1, .5, .95, 1])
        st, ss = rng.choice(['absolute', 'relative']), rng.choice(['absolute', 'relative'])
        bs = rng.randint(1, 4)
        tg = Tagger(build_model(sc), tokeniser(40), rng.randint(1, 4), k, p, st, sk, sp, ss)
        sents = [[rng.choice(sorted(LEX) + ['thecats', 'bigdogsees', 'zzz', 'bob-ann', 'ann.']) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
                 for _ in range(rng.randint(1, 5))]
        ok, out = quiet(lambda: tg(sents, bs, rng.choice(VERB)))
        evs = []
        if not ok or len(out.sentences) != len(sents):
            evs = [{'k': 'batch', 'sup': False, 'raised': not ok, 'out': [], 'same': True,
                    'err': '' if ok else str(out), 'sents': [{'kind': 'good', 'res': 1, 'failed': False, 'supnone': True, 'words': [], 'got': [], 'haswords': False} for _ in sents]}]
        else:
            thr = lambda q: round(math.log(q) * 10000) if q else 0
            for s, o in zip(sents, out.sentences):
                tagsc, spansc = expected(sc, s if True else s)
                evs.append({'k': 'tags', 'words': s, 'gotwords': list(o.words), 'tagk': k, 'tagthr': thr(p), 'tagrel': st == 'relative',
                            'tagnothr': p == 0, 'spank': sk, 'spanthr': thr(sp), 'spanrel': ss == 'relative', 'spannothr': sp == 0,
                            'tagsc': tagsc, 'spansc': spansc,
                            'tags': [[[i, round(v * 10000)] for i, v in t] for t in o.tags],
                            'spans': [{'x': x, 'y': y, 'tags': [[i, round(v * 10000)] for i, v in t]} for x, y, t in o.spans]})
        cases.append({'api': 'tagger', 'events': evs})
    return cases


def oncilla_cases(chk, runs):
    rng, cases, book = chk.rng, [], Book()
    for run in runs:
        kinds, sup = run['kinds'], run['sup']
        tokd = rng.random() < .4
        sents, ws = pick(rng, kinds, ONCGOOD, ONCBAD)
        ws = [[x for x in w if x != '.'] if w else w for w in ws]
        if tokd:
            sents = [s.split() for s in sents]
        parser = Oncilla(ONC, rng.choice(VERB))
        verb = rng.choice([None] + VERB)
        one = lambda s, u: Oncilla(ONC, 'suppress').sentence2diagram(s, tokenised=tokd, suppress_exceptions=u)
        many = lambda ss, u: parser.sentences2diagrams(ss, tokenised=tokd, suppress_exceptions=u, verbose=verb)
        cases.append({'api': 'oncilla', 'events': [batch(book, str(tokd), one, many, sents, kinds, ws, sup)]})
    return cases


def ccgbank_cases(chk, runs):
    rng, cases, book = chk.rng, [], Book()
    for run in runs:
        kinds, sup = run['kinds'], run['sup']
        kinds = ['bad' if k == 'empty' and rng.random() < .5 else k for k in kinds]
        api = rng.choice(['trees', 'diagrams'])
        good, bad, words = CBGOOD, CBBAD, CBWORDS
        if api == 'diagrams':
            bad = bad + CBNODIAG * 2
        else:
            good, words = good + CBNODIAG, words + CBNOWORDS
        sents, ws = pick(rng, kinds, good, bad, words)
        parser = CCGBankParser('/nonexistent', rng.choice(VERB))
        verb = rng.choice([None] + VERB)
        new = lambda: CCGBankParser('/nonexistent')
        if api == 'trees':
            one = lambda s, u: new().sentence2tree(s, suppress_exceptions=u)
            many = lambda ss, u: parser.sentences2trees(ss, suppress_exceptions=u, verbose=verb)
        else:
            one = lambda s, u: new().sentence2diagram(s, suppress_exceptions=u)
            many = lambda ss, u: parser.sentences2diagrams(ss, suppress_exceptions=u, verbose=verb)
        cases.append({'api': 'ccgbank-' + api, 'events': [batch(book, api, one, many, sents, kinds, ws, sup)]})
        if rng.random() < .6:
            cases.append({'api': 'section-' + api, 'events': [section(chk, rng, book, api, one, sents, kinds, ws, sup)]})
    return cases


def section(chk, rng, book, api, one, sents, kinds, ws, sup):
    """The sentences as a corpus section of one or two files."""
    root = os.path.join(chk.scratch, 'corpus%d' % rng.randrange(10 ** 9))
    d = os.path.join(root, 'data', 'AUTO', '07')
    os.makedirs(d)
    cut = rng.randint(0, len(sents))
    ids = [f'wsj_07{i:02d}.{i + 1}' for i in range(len(sents))]
    rng.shuffle(ids)
    atend = False
    for part, (a, b) in enumerate([(0, cut), (cut, len(sents))]):
        body = ''
        for i in range(a, b):
            body += f'ID={ids[i]} PARSER=GOLD NUMPARSE=1\n{" ".join(sents[i].split())}\n'
        if b > a and not sents[b - 1].strip() and rng.random() < .5:
            body = body[:-1]          # the file ends right after the ID line
        elif b > a and rng.random() < .3:
            body = body.rstrip('\n')
        open(os.path.join(d, f'wsj_07{part:02d}.auto'), 'w').write(body)
    p = CCGBankParser(root, rng.choice(VERB))
    fn = p.section2trees if api == 'trees' else p.section2diagrams
    kw = {} if api == 'trees' else {'planar': False}
    verb = rng.choice([None] + VERB)
    ok, r = quiet(lambda: fn(7, suppress_exceptions=sup, verbose=verb, **kw))
    key = api + '-section'
    if api == 'diagrams':       # noun phrases are collapsed by default on both ways
        key = api
    return {'k': 'keyed', 'sup': sup, 'ids': ids, 'raised': not ok, 'err': '' if ok else str(r), 'outids': list(r) if ok else [],
            'out': [book.num(x) for x in r.values()] if ok else [],
            'text': json.dumps(sents), 'sents': [book.single(api, one, s, k, w) for s, k, w in zip(sents, kinds, ws)]}


class StubCCG(CCGParser):
    """A parser that knows the CCGBank trees by their words."""
    def __init__(self):
        super().__init__()
        self.known = {' '.join(w): s for s, w in zip(CBGOOD + CBNODIAG, CBWORDS + CBNOWORDS)}

    def sentences2trees(self, sentences, tokenised=False, suppress_exceptions=False, verbose=None):
        out = []
        for s in sentences:
            key = ' '.join(s) if tokenised else ' '.join(s.split())
            if key in self.known:
                out.append(CCGBankParser('/x').sentence2tree(self.known[key]))
            elif suppress_exceptions:
                out.append(None)
            else:
                raise ValueError(key)
        return out


def reader_cases(chk, runs):
    rng, cases, book = chk.rng, [], Book()
    for run in runs:
        kinds = run['kinds']
        tokd = rng.random() < .4
        name, r = rng.choice([('cups', cups_reader), ('spiders', spiders_reader), ('stairs', stairs_reader), ('tree', None)])
        if name == 'tree':
            mode = rng.choice(TreeReader.available_modes())
            r = TreeReader(StubCCG(), mode=mode)
            kinds = ['bad' if k == 'empty' else k for k in kinds]
            sents, ws = pick(rng, kinds, [' '.join(w) for w in CBWORDS], ['no such', '', 'cats cats'], CBWORDS)
            key = name + str(mode)
        else:
            kinds = ['good'] * len(kinds)
            sents, ws = pick(rng, kinds, GOOD, BAD)
            ws = [(['START'] if name == 'cups' else []) + w for w in ws]
            key = name
        if tokd:
            sents = [s.split() for s in sents]
        if name == 'tree':
            one = lambda s, u: r.sentence2diagram(s, tokenised=tokd, suppress_exceptions=u)
        else:
            one = lambda s, u: r.sentence2diagram(s, tokenised=tokd)
        many = lambda ss, u: r.sentences2diagrams(ss, tokenised=tokd)
        cases.append({'api': 'reader-' + name, 'events': [batch(book, key + str(tokd), one, many, sents, kinds, ws, False)]})
    return cases


class Resp:
    def __init__(self, data):
        self.data = data

    def json(self):
        if isinstance(self.data, Exception):
            raise self.data
        return json.loads(self.data)


def web_cases(chk, runs):
    """WebParser against a service that is a table."""
    import requests
    from lambeq import WebParser
    rng, cases, book = chk.rng, [], Book()
    table = {' '.join(w): Resp(json.dumps(CCGBankParser('/x').sentence2tree(s).to_json())) for s, w in zip(CBGOOD, CBWORDS)}
    table['not json'] = Resp(requests.JSONDecodeError('no', '', 0))
    table['error page'] = Resp('{"error": "cannot parse"}')
    table['wrong type'] = Resp('{"type": "((", "text": "x"}')
    table['text only'] = Resp('"no tree"')

    def get(url, params):
        if params['sentence'] == 'no connection':
            raise requests.ConnectionError('none')
        return table[params['sentence']]
    old, requests.get = requests.get, get
    try:
        for run in runs:
            kinds, sup = run['kinds'], run['sup']
            tokd = rng.random() < .4
            api = rng.choice(['trees', 'diagrams'])
            sents, ws = pick(rng, kinds, [' '.join(w) for w in CBWORDS], ['not json', 'error page', 'wrong type', 'no connection', 'text only'],
                             CBWORDS)
            if tokd:
                sents = [s.split() for s in sents]
            parser = WebParser(verbose=rng.choice(VERB))
            verb = rng.choice([None] + VERB)
            if api == 'trees':
                one = lambda s, u: WebParser().sentence2tree(s, tokenised=tokd, suppress_exceptions=u)
                many = lambda ss, u: parser.sentences2trees(ss, tokenised=tokd, suppress_exceptions=u, verbose=verb)
            else:
                one = lambda s, u: WebParser().sentence2diagram(s, tokenised=tokd, suppress_exceptions=u)
                many = lambda ss, u: parser.sentences2diagrams(ss, tokenised=tokd, suppress_exceptions=u, verbose=verb)
            cases.append({'api': 'web-' + api, 'events': [batch(book, api + str(tokd), one, many, sents, kinds, ws, sup)]})
    finally:
        requests.get = old
    return cases


class DCat:
    """depccg's category objects."""
    def __init__(self, t):
        self.is_functor = t.is_complex
        if t.is_complex:
            self.left, self.right, self.slash = DCat(t.result), DCat(t.argument), t.direction
        else:
            self.base = {'n': 'N', 'np': 'NP', 's': 'S', 'p': 'PP', 'conj': 'conj', 'punc': '.'}.get(str(t.name).lower(), str(t.name))


class DTree:
    def __init__(self, t):
        self.cat, self.is_leaf, self.children = DCat(t.biclosed_type), t.is_leaf, [DTree(c) for c in t.children]
        self.word, self.op_string, self.op_symbol = t.text, t.rule.value, '<un>' if t.rule.value == 'U' else ''


class Scored:
    def __init__(self, tree, score):
        self.tree, self.score = tree, score


def depccg_cases(chk, runs):
    from lambeq import DepCCGParser
    known = {tuple(w): DTree(CCGBankParser('/x').sentence2tree(s)) for s, w in zip(CBGOOD, CBWORDS)}
    odd = DTree(CCGBankParser('/x').sentence2tree(CBGOOD[0]))
    odd.cat.base = 'Q'

    class Dep(DepCCGParser):
        def __init__(self):
            self.verbose = 'progress'

        def _depccg_parse(self, sentences):
            return [[Scored(odd, -1.) if s[0] == 'odd' else
                     Scored(known.get(tuple(s)), -1. if tuple(s) in known else -math.inf)] for s in sentences]
    rng, cases, book = chk.rng, [], Book()
    for run in runs:
        kinds, sup = run['kinds'], run['sup']
        tokd = rng.random() < .5
        api = rng.choice(['trees', 'diagrams'])
        sents, ws = pick(rng, kinds, [' '.join(w) for w in CBWORDS], ['no such', 'odd one', 'cats cats'], CBWORDS)
        if tokd:
            sents = [s.split() for s in sents]
        parser = Dep()
        verb = rng.choice([None, 'progress'])
        if api == 'trees':
            one = lambda s, u: Dep().sentence2tree(s, tokenised=tokd, suppress_exceptions=u)
            many = lambda ss, u: parser.sentences2trees(ss, tokenised=tokd, suppress_exceptions=u, verbose=verb)
        else:
            one = lambda s, u: Dep().sentence2diagram(s, tokenised=tokd, suppress_exceptions=u)
            many = lambda ss, u: parser.sentences2diagrams(ss, tokenised=tokd, suppress_exceptions=u, verbose=verb)
        cases.append({'api': 'depccg-' + api, 'events': [batch(book, api + str(tokd), one, many, sents, kinds, ws, sup)]})
    return cases


def tokeniser_cases(chk, n):
    """Sentences are tokenised one by one, in order."""
    import spacy
    from lambeq import SpacyTokeniser
    rng = chk.rng

    class Tok(SpacyTokeniser):
        def __init__(self):
            self.tokeniser = spacy.blank('en')
            self.spacy_nlp = spacy.lang.en.English()
            self.spacy_nlp.add_pipe('sentencizer')
    cases, book = [], Book()
    tok = Tok()
    for _ in range(n):
        parts = ["ann doesn't sleep.", 'bob', 'the  cats\tsleep', '', ' x ', 'a, b; c', 'Dr. Ann sees (bob).', 'e.g. dogs!']
        sents = [rng.choice(parts) for _ in range(rng.randint(0, 6))]
        given = list(sents)
        ok, out = quiet(lambda: tok.tokenise_sentences(rng.choice([list, tuple, iter])(sents)))
        rows = []
        for s in given:
            o, r = quiet(lambda: Tok().tokenise_sentence(s))
            rows.append({'kind': 'good', 'failed': not o, 'supnone': False, 'res': book.num(r) if o else 0, 'haswords': True,
                         'words': [''.join(s.split())], 'got': [''.join(r)] if o else []})
        cases.append({'api': 'tokeniser', 'events': [{'k': 'batch', 'sup': False, 'raised': not ok, 'err': '' if ok else str(out), 'same': sents == given,
                                                      'out': [book.num(x) for x in out] if ok else [], 'text': json.dumps(given), 'sents': rows}]})
    return cases


def check(chk):
    r = chk.model('P14Model', cfg='P14ModelThorough.cfg' if chk.thorough else 'P14Model.cfg')
    runs = [json.loads(x.split('|', 1)[1].replace('\\"', '"')) for x in r.prints if '@@RUN' in x]
    runs = [x for x in runs]
    chk.rng.shuffle(runs)
    some = lambda a, b: runs[:chk.n(a, b)]
    for _ in range(chk.n(60, 300)):
        runs.append({'kinds': [chk.rng.choice(['good', 'good', 'bad', 'empty']) for _ in range(chk.rng.randint(5, 11))],
                     'sup': chk.rng.random() < .85, 'bs': chk.rng.randint(1, 6)})
    torch.manual_seed(chk.seed)
    cases = bobcat_cases(chk, runs[-chk.n(700, 3000):]) + tag_cases(chk, chk.n(150, 1000))
    cases += oncilla_cases(chk, runs[-chk.n(400, 2000):]) + ccgbank_cases(chk, runs[-chk.n(400, 2000):]) + reader_cases(chk, runs[-chk.n(200, 600):])
    cases += web_cases(chk, runs[-chk.n(300, 1500):]) + depccg_cases(chk, runs[-chk.n(300, 1500):]) + tokeniser_cases(chk, chk.n(20, 100))
    chk.conform('P14Trace', cases, label='batches')


if __name__ == '__main__':
    main('P14', check)

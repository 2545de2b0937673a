"""P17: readers, judged by spec/P17Trace.tla; linear configurations come from
spec/P17Model.tla, derivations from spec/P12Model.tla and a generator."""
import json, sys
sys.path.insert(0, '/verif')
sys.path.insert(0, '/verif/checks')
from lambeq import (LinearReader, TreeReader, TreeReaderMode, bag_of_words_reader, cups_reader,
                    spiders_reader, stairs_reader, word_sequence_reader)
from lambeq.backend.grammar import Box, Cup, Diagram, Id, Spider, Swap, Ty, Word
from lambeq.text2diagram import CCGParser
from lambeq.text2diagram.spiders_reader import SpidersReader
from vlib import gen, proj
from vlib.core import attempt, main, MachineryError
import p12

WORDS = ['Alice', 'loves', 'the', 'big', 'bad', 'wolf', 'the', 'and', "don't", '.', 'é', 'a-b', 'START', '“x”']
SEPS = [' ', '  ', '\t', '\n', ' \n ', '\u00a0', '\u2003']
s = Ty('s')


def phrase(rng, lo=1, hi=7):
    return [rng.choice(WORDS) for _ in range(rng.randint(lo, hi))]


def as_input(rng, ws):
    """The sentence as text or as tokens."""
    if rng.random() < .4:
        return list(ws), True
    pad = lambda: rng.choice(['', '', ' ', '\n'])
    text = pad() + ''.join(w + rng.choice(SEPS if i < len(ws) - 1 else ['']) for i, w in enumerate(ws)) + pad()
    return text, False


def unproj(j):
    d = Id(proj.build_ty(j['dom']))
    for ly in j['layers']:
        b, dom, cod = ly['b'], proj.build_ty(ly['b']['d']), proj.build_ty(ly['b']['c'])
        if b['k'] == 'cup':
            x = Cup(dom[0], dom[1])
        elif b['k'] == 'spider':
            x = Spider(dom[0], len(dom), len(cod))
        else:
            x = Word(b['n'], cod) if b['k'] == 'word' else Box(b['n'], dom, cod)
        d = d >> proj.build_ty(ly['L']) @ x @ proj.build_ty(ly['R'])
    return d


def read(reader, inp, tok, rng, **kw):
    if tok or rng.random() < .3:
        kw['tokenised'] = tok
    before = json.dumps(inp)
    ok, d = attempt(lambda: reader.sentence2diagram(inp, **kw))
    if json.dumps(inp) != before:
        ok, d = False, 'operand changed'
    return ok, d


def ev_linear(rng, reader, desc, ws):
    inp, tok = as_input(rng, ws)
    ok, d = read(reader, inp, tok, rng)
    return {'op': 'linear', **desc, 'ws': ws, 'ok': ok, **({'d': proj.diagram(d)} if ok else {'err': d})}


def ev_spiders(rng, reader):
    ws = phrase(rng, 0)
    inp, tok = as_input(rng, ws)
    ok, d = read(reader, inp, tok, rng)
    return {'op': 'spiders', 'ws': ws, 'wt': proj.ty(s), 'ok': ok, **({'d': proj.diagram(d)} if ok else {'err': d})}


def desc(comb, wt, start):
    return {'comb': proj.diagram(comb), 'wt': proj.ty(wt), 'start': proj.diagram(start)}


CUPS = desc(Cup(s, s.r), s.r @ s, Word('START', s))
STAIRS = desc(Box('STAIR', s @ s, s), s, Id())


def ev_flag(rng):
    r = rng.choice([cups_reader, stairs_reader, spiders_reader])
    ws = phrase(rng)
    kind = rng.choice(['tok-as-text', 'text-as-tok', 'non-str', 'tuple'])
    if kind == 'tok-as-text':
        ok, v = attempt(lambda: r.sentence2diagram(ws))
    elif kind == 'text-as-tok':
        ok, v = attempt(lambda: r.sentence2diagram(' '.join(ws), tokenised=True))
    elif kind == 'tuple':
        ok, v = attempt(lambda: r.sentence2diagram([ws], tokenised=True))
    else:
        ok, v = attempt(lambda: r.sentence2diagram(ws + [3], tokenised=True))
    return {'op': 'badflag', 'ok': ok, 'err': str(v)}


def ev_batch(rng):
    r = rng.choice([cups_reader, stairs_reader, spiders_reader, word_sequence_reader, bag_of_words_reader])
    tok = rng.random() < .5
    ws = [phrase(rng) for _ in range(rng.randint(0, 4))]
    inp = ws if tok else [' '.join(w) for w in ws]
    one = [repr(r.sentence2diagram(x, tokenised=tok)) for x in inp]
    ok, v = attempt(lambda: [repr(x) for x in r.sentences2diagrams(inp, tokenised=tok)])
    return {'op': 'batch', 'ok': ok, 'one': one, 'rs': v if ok else []}


class Fixed(CCGParser):
    """Returns prepared derivations."""
    table = {}

    def __init__(self):
        super().__init__()

    def sentences2trees(self, sentences, tokenised=False, suppress_exceptions=False, verbose=None):
        return [self.table[' '.join(x) if tokenised else x] for x in sentences]


PARSER = Fixed()


def ev_tree(rng, j):
    words = []

    def walk(x):
        if not x['ch']:
            words.append(x['w'])
        for y in x['ch']:
            walk(y)
    walk(j)
    mode = rng.choice(['NO_TYPE', 'RULE_ONLY', 'RULE_TYPE', 'HEIGHT'])
    collapse = rng.random() < .6
    wt = rng.choice([s, s, Ty('n'), s @ Ty('n'), s.r])
    t = p12.tree(j)
    style = rng.random()
    if style < .5:
        PARSER.table = {' '.join(words): t}
        kw = {} if mode == 'NO_TYPE' and rng.random() < .5 else {'mode': TreeReaderMode[mode]}
        if wt != s or rng.random() < .5:
            kw['word_type'] = wt
        reader = TreeReader(PARSER if rng.random() < .5 else lambda: PARSER, **kw)
        k2 = {} if collapse and rng.random() < .5 else {'collapse_noun_phrases': collapse}
        ok, d = read(reader, words if rng.random() < .5 else ' '.join(words), None, rng, **k2) if False else \
            attempt(lambda: reader.sentence2diagram(' '.join(words), **k2))
    else:
        collapse = False
        ok, d = attempt(lambda: TreeReader.tree2diagram(t, mode=TreeReaderMode[mode], word_type=wt))
    if ok and d is None:
        ok, d = False, 'None'
    return {'op': 'tree', 'tree': j, 'mode': mode, 'collapse': collapse, 'wt': proj.ty(wt), 'ok': ok,
            **({'d': proj.diagram(d)} if ok else {'err': d})}


def run(chk):
    rng = chk.rng
    r = chk.model('P17Model', cfg='P17ModelThorough.cfg' if chk.thorough else 'P17Model.cfg')
    cases = []
    names = ['la', 'bo', 'la', 'ke', 'su', 'w6', 'w7']
    for x in r.prints:
        if not x.startswith('@@RUN|'):
            continue
        j = json.loads(x.split('|', 1)[1].replace('\\"', '"'))
        comb, start, wt = unproj(j['comb']), unproj(j['start']), proj.build_ty(j['wt'])
        if not j['ok'] and len(comb.cod) >= len(comb.dom):
            continue
        rd = LinearReader(comb, wt, start) if len(j['start']['layers']) else LinearReader(comb, word_type=wt)
        cases.append({'events': [ev_linear(rng, rd, desc(comb, wt, start), names[:j['k']])]})
    if len(cases) < 100:
        raise MachineryError('the model produced too few readers')
    chk.conform('P17Trace', cases, label='linear readers of the model')
    cases = []
    for _ in range(chk.n(150, 2000)):
        evs = [ev_linear(rng, rng.choice([cups_reader, word_sequence_reader]), CUPS, phrase(rng, 0)),
               ev_linear(rng, stairs_reader, STAIRS, phrase(rng, 0, 10)),
               ev_spiders(rng, rng.choice([spiders_reader, bag_of_words_reader, SpidersReader()])),
               ev_flag(rng), ev_batch(rng)]
        a = gen.ty(rng, 1, 3)
        comb = gen.diagram(rng, dom=gen.ty(rng, 2, 3, zs=(0,)) if rng.random() < .5 else s @ s, n_layers=2)
        comb = comb >> Box('C', comb.cod, comb.dom[:1])
        wt = comb.dom[1:] if rng.random() < .7 else a
        start = Word('S0', comb.dom[:1]).to_diagram() if rng.random() < .6 else Id()
        evs.append(ev_linear(rng, LinearReader(comb, wt, start), desc(comb, wt, start), phrase(rng, 0, 4)))
        cases.append({'events': evs})
    chk.conform('P17Trace', cases, label='sentences')
    m = chk.model('P12Model', cfg='P12Model.cfg')
    trees = [json.loads(x.split('|', 1)[1].replace('\\"', '"').replace('\\\\', '\\'))
             for x in m.prints if x.startswith('@@TREE|')]
    trees.sort(key=lambda j: json.dumps(j, sort_keys=True))
    cases = [{'events': [ev_tree(rng, j)]} for j in rng.sample(trees, min(len(trees), chk.n(700, 10 ** 6)))]
    for _ in range(chk.n(500, 6000)):
        g = p12.Gen(rng, np=rng.random() < .5, unary=rng.choice([0, 0, .08, .25]))
        j = g.grow(g.atom() if rng.random() < .4 else g.cat(3), rng.randint(0, 6))
        if g.k <= 12:
            cases.append({'events': [ev_tree(rng, j)]})
    chk.conform('P17Trace', cases, label='tree readers')


if __name__ == '__main__':
    main('P17', run)

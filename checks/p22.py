"""P22: text rendering of pregroup sentences, judged by spec/P22Trace.tla."""
import json, sys
sys.path.insert(0, '/verif')
import p16
from lambeq.backend.drawing import render_as_str
from lambeq.backend.drawing.text_printer import PregroupTextPrinter
from lambeq.backend.grammar import Box, Cap, Cup, Diagram, Layer, Swap, Ty, Word
from vlib import proj
from vlib.core import attempt, main

SHAPES = {'│': 'v', '─': 'h', '╰': 'bl', '╯': 'br', '╭': 'tl', '╮': 'tr'}
PLAIN = {'|': 'v', '_': 'h', '\\': 'bl', '/': 'br', '\xa0': ' '}


def cells(text, ascii_):
    return [(PLAIN if ascii_ else SHAPES).get(ch, ch if ch.isascii() or ch == '·' else f'u{ord(ch)}') for ch in text]


def plain_name(o):
    return o.name + '.l' * -o.z + '.r' * o.z


def ev_render(rng, d, how=None):
    spacing, at, comp, ascii_ = how or (rng.choice([1, 2, 2, 3, 5]), rng.random() < .4, rng.random() < .6, rng.random() < .4)
    kw = dict(word_spacing=spacing, use_at_separator=at, compress_layers=comp, use_ascii=ascii_)
    r = rng.random()

    def go():
        if r < .4:
            return render_as_str(d, **kw)
        if r < .7:
            return d.render_as_str(**kw)
        return PregroupTextPrinter(spacing, at, comp, ascii_).diagram2str(d)
    ok, s = attempt(go)
    sep = ' @ ' if at else ' ' if ascii_ else '·'
    text = s if ok else ''
    return {'op': 'render', 'ok': ok, 'err': '' if ok else str(s), 'rows': [cells(x, ascii_) for x in text.split('\n')],
            'spacing': spacing, 'sep': list(sep), 'compress': comp, 'ascii': ascii_, 'pure': '\n'.join(text.split('\n')[1:]).isascii(),
            'text': text, 'words': [cells(y.box.name, ascii_) for y in d.layers if isinstance(y.box, Word)]}


def case(rng, d, n=2, hows=()):
    ws = [y.box for y in d.layers if isinstance(y.box, Word)]
    assert d.is_pregroup
    es = [ev_render(rng, d) for _ in range(n)] + [ev_render(rng, d, h) for h in hows]
    return {'kind': 'sentence', 'd': proj.diagram(d), 'types': [[list(plain_name(o)) for o in w.cod] for w in ws], 'events': es}


def build(rng, words, ops, names):
    layers, cur = [], Ty()
    for w, t in zip(names, words):
        t = proj.build_ty(t)
        layers.append(Layer(left=cur, box=Word(w, t), right=Ty()))
        cur = cur @ t
    for o in ops:
        i = o['at']
        b = (Cup if o['k'] == 'cup' else Swap)(cur[i:i + 1], cur[i + 1:i + 2])
        layers.append(Layer(left=cur[:i], box=b, right=cur[i + 2:]))
        cur = layers[-1].cod
    return Diagram(dom=Ty(), cod=cur, layers=layers)


NAMES = ['a', 'I', 'to', 'the', 'cat', 'John', 'sleeps', "didn't", 'antidisestablish', 'go-to', 'x.y', 'naïve', 'U.S.']
TYPES = ['n', 's', 'p', 'np', 'conj', 'punc', 'q']


def rand_sentence(rng):
    """Words with any types, cups and swaps wherever they fit."""
    words = []
    for _ in range(rng.randint(1, 5)):
        t = [[rng.choice(TYPES[:rng.choice([2, 4, 7])]), rng.choice([0, 0, 1, -1, 2, -2, 3])] for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
        if words and rng.random() < .6:    # something that cancels with what came before
            k = rng.choice(words)[::-1][:rng.randint(1, 3)]
            t = [[a, z + 1] for a, z in k] + t[:2]
        words.append(t)
    cur = [x for t in words for x in t]
    ops = []
    for _ in range(rng.randint(0, 12)):
        can = [i for i in range(len(cur) - 1) if cur[i][0] == cur[i + 1][0] and cur[i + 1][1] - cur[i][1] == 1]
        if can and rng.random() < .7:
            i = rng.choice(can)
            ops.append({'k': 'cup', 'at': i})
            del cur[i:i + 2]
        elif len(cur) > 1:
            i = rng.randrange(len(cur) - 1)
            ops.append({'k': 'swap', 'at': i})
            cur[i], cur[i + 1] = cur[i + 1], cur[i]
    return build(rng, words, ops, [rng.choice(NAMES) for _ in words])


def not_sentences(rng):
    n, s = Ty('n'), Ty('s')
    ds = [Word('a', n) >> Box('f', n, s), Word('a', n) @ Cap(n, n.l), Diagram.id(n), Box('f', n, n).to_diagram(),
          Word('a', n @ n.r) >> Cup(n, n.r) @ Ty() >> Word('b', s).to_diagram(),
          Word('a', n).to_diagram().dagger(), Word('a', n) >> Word('a', n).to_diagram().dagger()]
    out = []
    for d in ds:
        es = []
        for f in (lambda: d.render_as_str(), lambda: PregroupTextPrinter().diagram2str(d)):
            ok, r = attempt(f)
            es.append({'op': 'refuse', 'ok': ok, 'err': '' if ok else str(r)})
        out.append({'kind': 'other', 'd': 0, 'types': [], 'events': es})
    return out


def run(chk):
    rng, t = chk.rng, chk.thorough
    m = chk.model('P22Model', cfg='P22ModelThorough.cfg' if t else 'P22Model.cfg')
    runs = [json.loads(x.split('|', 1)[1].replace('\\"', '"')) for x in m.prints if x.startswith('@@RUN')]
    if not t and len(runs) > 1500:
        runs = rng.sample(runs, 1500)
    cases = [case(rng, build(rng, r['words'], r['ops'], [rng.choice(NAMES) for _ in r['words']]), 1) for r in runs]
    for _ in range(chk.n(700, 6000)):
        cases.append(case(rng, rand_sentence(rng), 2))
    for _ in range(chk.n(200, 2000)):
        tr = p16.random_tree(rng, rng.randint(2, 6))
        d = p16.sentence(rng, *p16.tangled(rng, tr))
        if len(d.cod) + 2 * sum(not isinstance(b, Word) for b in d.boxes) < 60:
            cases.append(case(rng, d, 2))
    cases += not_sentences(rng)
    chk.conform('P22Trace', cases, label='pictures')


if __name__ == '__main__':
    main('P22', run)

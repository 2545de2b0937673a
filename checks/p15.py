"""P15: rewriting, judged by spec/P15Trace.tla; sentences under every rule
list come from spec/P15Model.tla, the rest is random."""
import json, sys
sys.path.insert(0, '/verif')
from lambeq import (AtomicType, CollapseDomainRewriteRule, CoordinationRewriteRule, CurryRewriteRule,
                    RemoveCupsRewriter, RemoveSwapsRewriter, Rewriter, SimpleRewriteRule,
                    UnifyCodomainRewriter, UnknownWordsRewriteRule)
from lambeq.backend.grammar import Box, Cap, Cup, Diagram, Frame, Id, Layer, Spider, Swap, Ty, Word
from vlib import gen, proj
from vlib.core import attempt, main, MachineryError

BUILTIN = ['auxiliary', 'connector', 'determiner', 'postadverb', 'preadverb', 'prepositional_phrase',
           'coordination', 'curry', 'object_rel_pronoun', 'subject_rel_pronoun']
n, s = Ty('n'), Ty('s')
vp = n.r @ s
CODS = [vp @ vp.l, vp.r @ vp, s @ s.l, n @ n.l, vp.r @ vp @ n.l, n.r @ n @ n.l.l @ s.l, n.r @ n @ s.l @ n,
        n.r @ n @ n.l, vp.r @ vp @ vp.l, s.r @ s @ s.l, n.r @ n.r, n.l @ n.l, n.r @ n.l, vp, vp @ n.l, n, s,
        (n.r @ s @ n.l).r @ (n.r @ s @ n.l) @ (n.r @ s @ n.l).l]
NAMES = ['will', 'Did', 'HAVE', "'d", 'and', 'That', 'that', 'the', 'A', 'who', 'whom', 'red', 'Alice', 'but', 'If',
         'alice', 'a']


def word_ty(j):
    return proj.build_ty(j)


def template(rng, cod):
    """A template of the given codomain with a placeholder."""
    style = rng.random()
    PH = SimpleRewriteRule.placeholder
    if style < .25 or not len(cod):
        return PH(cod) if rng.random() < .5 else PH(cod).to_diagram()
    if style < .45:
        return PH(cod) >> Box('B', cod, cod)
    if style < .6:
        k = rng.randint(0, len(cod))
        return PH(cod[:k]).to_diagram() @ Word('X', cod[k:]) if rng.random() < .5 else \
            (Word('X', cod[:k]) @ PH(cod[k:]))
    if style < .75:
        t = gen.ty(rng, 1, 2)
        return PH(t) >> Box('B', t, cod)
    if style < .85:
        return PH(cod.l).r.to_diagram()
    if style < .93:
        return PH(cod).dagger().dagger() >> Box('C', cod, cod).dagger()
    return PH(s @ cod) @ Word('X', s.r) >> (Id(s) @ Diagram.permutation(cod @ s.r, [len(cod), *range(len(cod))])
                                            >> Cup(s, s.r) @ cod)


def some_rule(rng):
    """A rule object (or name) with its description."""
    r = rng.random()
    if r < .5:
        name = rng.choice(BUILTIN)
        return name, {'k': 'named', 'name': name}
    if r < .8:
        cod = rng.choice(CODS) if rng.random() < .8 else gen.ty(rng, 1, 3)
        t = template(rng, cod)
        words = rng.sample(NAMES, rng.randint(1, 4)) if rng.random() < .7 else None
        cs = rng.random() < .4
        box = rng.choice([list, tuple, set, frozenset])
        rule = SimpleRewriteRule(cod=cod, template=t, words=None if words is None else box(words), case_sensitive=cs)
        return rule, {'k': 'simple', 'cod': proj.ty(cod), 'words': words or [], 'anyword': words is None,
                      'cs': cs, 't': proj.diagram(t)}
    if r < .88:
        words = rng.choice([['and', 'but'], ['or', 'red'], ['that', 'and']])
        return CoordinationRewriteRule(words), {'k': 'coord', 'words': words}
    if r < .94:
        left = rng.random() < .5
        return CollapseDomainRewriteRule(left=left), {'k': 'collapse', 'left': left}
    vocab, desc = [], []
    for _ in range(rng.randint(0, 8)):
        w = rng.choice(NAMES)
        if rng.random() < .5:
            vocab.append(w)
            desc.append({'n': w, 'any': True, 'c': []})
        else:
            c = rng.choice(CODS)
            vocab.append((w, c))
            desc.append({'n': w, 'any': False, 'c': proj.ty(c)})
    unk = rng.choice(['<UNK>', '?'])
    return UnknownWordsRewriteRule(set(vocab), unk), {'k': 'unk', 'vocab': desc, 'unk': unk}


def sentence(rng, boxes=True, turned=True, frames=True):
    """Words that rules care about and words they do not, then structure."""
    d = Id()
    for _ in range(rng.randint(1, 4)):
        w = Word(rng.choice(NAMES), rng.choice(CODS) if rng.random() < .85 else gen.ty(rng, 0, 3))
        if turned and rng.random() < .12:
            w = w.rotate(rng.choice([-2, -1, 1, 2]))
        d = d @ w.to_diagram()
    for _ in range(rng.randint(0, 4)):
        r, k = rng.random(), len(d.cod)
        if r < .35 and k > 1:
            d = gen.close_cups(rng, d, .7)
        elif r < .5 and k > 1:
            i = rng.randint(0, k - 2)
            d = d >> d.cod[:i] @ Swap(d.cod[i], d.cod[i + 1]) @ d.cod[i + 2:]
        elif r < .6 and k:
            i = rng.randint(0, k - 1)
            d = d >> d.cod[:i] @ Spider(d.cod[i], 1, rng.choice([1, 2])) @ d.cod[i + 1:]
        elif r < .75 and boxes and k:
            m = rng.randint(1, min(2, k))
            i = rng.randint(0, k - m)
            b = Box(rng.choice(['red', 'F', 'x']), d.cod[i:i + m], gen.ty(rng, 0, 2))
            d = d >> d.cod[:i] @ b @ d.cod[i + m:]
        elif r < .85 and turned and k:
            # a word that is a target, upside down
            for i in range(k):
                c = d.cod[i:i + rng.randint(1, 4)]
                if any(c == x for x in CODS) and rng.random() < .5:
                    d = d >> d.cod[:i] @ Word(rng.choice(NAMES), c).dagger() @ d.cod[i + len(c):]
                    break
        elif r < .95 and frames:
            t = rng.choice([n, s, vp, n @ n.l])
            d = d @ Frame('fr', Ty() if rng.random() < .7 else s, t,
                          components=[Word('the', n @ n.l)]) if rng.random() < .5 else d
    return d


def low_of(rules, *ds):
    names = set()
    for d in ds:
        for ly in d['layers']:
            names.add(ly['b']['n'])
    for r in rules:
        names.update(r.get('words', []))
    names.update(NAMES)
    return {x: x.lower() for x in names} | LOW


LOW = {}
for _r in BUILTIN:
    for _w in getattr(Rewriter._available_rules[_r], 'words', None) or []:
        LOW[_w] = _w.lower()
LOW.update({w: w for w in 'and but however if that whether a an the which who whom whose am are be been being is was '
            "were did do does 'd had has have may might will".split()})


def ev_apply(rw, d, descs):
    before = repr(d)
    ok, r = attempt(lambda: rw(d))
    e = {'op': 'apply', 'd': proj.diagram(d), 'ok': ok, 'same': repr(d) == before}
    e['low'] = low_of(descs, e['d'])
    if ok:
        e['r'] = proj.diagram(r)
    else:
        e['err'] = r
    return e, r


def targets_with_inputs(descs, d):
    """A box with inputs whose outputs are a word's: no rule documents what becomes of it."""
    return any(len(b.dom) and any(x['k'] in ('simple', 'named', 'coord') for x in descs) and not b.cod.is_empty
               and any(b.cod == c for c in CODS + [Ty()]) for b in d.boxes
               if not isinstance(b, (Cup, Cap, Swap, Spider)))


def history(rng):
    """A rewriter that is used, extended and used again."""
    rules, descs = [], []
    default = rng.random() < .2
    if not default:
        for _ in range(rng.randint(0, 3)):
            r, x = some_rule(rng)
            rules.append(r)
            descs.append(x)
    ok, rw = attempt(lambda: Rewriter() if default else Rewriter(rules))
    events = [{'op': 'new', 'default': default, 'rules': descs, 'ok': ok}]
    if default:
        descs = [{'k': 'named', 'name': x} for x in BUILTIN[:6]]
    ds = [sentence(rng) for _ in range(2)]
    last = None
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        if r < .3:
            new = [some_rule(rng) for _ in range(rng.randint(1, 2))]
            ok, v = attempt(lambda: rw.add_rules(*[x[0] for x in new]))
            events.append({'op': 'add', 'rules': [x[1] for x in new], 'ok': ok})
            descs = descs + [x[1] for x in new]
        elif r < .35:
            ok, v = attempt(lambda: rw.add_rules('nothing like it'))
            events.append({'op': 'badname', 'ok': ok, 'err': str(v)})
        else:
            d = rng.choice(ds)
            if any(len(getattr(b, 'dom', ())) and b.cod in CODS for b in d.boxes
                   if not isinstance(b, (Cup, Cap, Swap, Spider))) and not _plain(d):
                continue
            e, v = ev_apply(rw, d, descs)
            events.append(e)
            if e['ok'] and rng.random() < .3 and hasattr(v, 'layers') and v.layers:
                v.layers.pop()          # the answer is the caller's
    return {'events': events}


def _plain(d):
    """Boxes with inputs only of shapes no word rule could mistake for a word."""
    for b in d.boxes:
        if isinstance(b, (Cup, Cap, Swap, Spider)):
            continue
        base = b.dagger() if type(b).__name__.startswith('Daggered') else b
        if len(base.dom) and any(base.cod == c for c in CODS):
            return False
    return True


def ev_rule(rng):
    while True:
        r, x = some_rule(rng)
        if not isinstance(r, str):
            break
        r = Rewriter._available_rules[r]
        break
    b = Word(rng.choice(NAMES), rng.choice(CODS)) if rng.random() < .8 else \
        Box('F', gen.ty(rng, 1, 2), gen.ty(rng, 1, 2, zs=(0,)) @ Ty('q'))
    ok, v = attempt(lambda: r(b))
    pb = proj.box(b)
    e = {'op': 'rule', 'rule': x, 'b': pb, 'ok': ok, 'none': ok and v is None,
         'low': low_of([x], {'layers': [{'b': pb}]})}
    if ok and v is not None:
        e['r'] = proj.diagram(v)
    return e


def ev_unknown(rng):
    ds = [sentence(rng, turned=False, frames=False) for _ in range(rng.randint(1, 4))]
    d = rng.choice(ds) if rng.random() < .5 else sentence(rng, turned=False, frames=False)
    mf, ig = rng.choice([1, 1, 2, 3]), rng.random() < .5
    kw = {} if mf == 1 and rng.random() < .5 else {'min_freq': mf}
    if ig or rng.random() < .5:
        kw['ignore_types'] = ig
    unk = '<UNK>'
    if rng.random() < .3:
        unk = kw['unk_token'] = 'new'
    ok, v = attempt(lambda: Rewriter([UnknownWordsRewriteRule.from_diagrams(ds, **kw)])(d))
    e = {'op': 'unknown', 'ds': [proj.diagram(x) for x in ds], 'd': proj.diagram(d), 'min': mf, 'ignore': ig,
         'unk': unk, 'ok': ok}
    if ok:
        e['r'] = proj.diagram(v)
    return e


def ev_unify(rng):
    d = sentence(rng)
    t = rng.choice([d.cod, s, n, n @ s, Ty()])
    rw = UnifyCodomainRewriter() if t == s and rng.random() < .5 else UnifyCodomainRewriter(t)
    ok, v = attempt(lambda: rw(d))
    return {'op': 'unify', 'd': proj.diagram(d), 't': proj.ty(t), 'ok': ok, **({'r': proj.diagram(v)} if ok else {'err': v})}


def named_words(rng, cods):
    return [Word(f'w{i}', c) for i, c in enumerate(cods)]


def pregroup(rng, swaps=0.3, reverse=False):
    """Words, then cups (and swaps), as a pregroup sentence."""
    cods = [rng.choice(CODS[:15] + [n, n, n, vp, s, n.r @ s @ n.l, n.r @ s @ n.l]) for _ in range(rng.randint(1, 5))]
    d = Id()
    for w in named_words(rng, cods):
        d = d @ w
    for _ in range(rng.randint(2, 14)):
        can = [i for i in range(len(d.cod) - 1) if d.cod[i].r == d.cod[i + 1] or
               (reverse and d.cod[i].l == d.cod[i + 1])]
        if rng.random() < swaps and len(d.cod) > 1:
            i = rng.randint(0, len(d.cod) - 2)
            d = d >> d.cod[:i] @ Swap(d.cod[i], d.cod[i + 1]) @ d.cod[i + 2:]
        elif can:
            i = rng.choice(can)
            d = d >> d.cod[:i] @ Cup(d.cod[i], d.cod[i + 1], is_reversed=d.cod[i].r != d.cod[i + 1]) @ d.cod[i + 2:]
    return d


def linked(rng):
    """A sentence whose cups are known to exist: words are cut out of a planar
    matching, so that whole words get contracted."""
    k = rng.randint(1, 6)
    seq, stack = [], []
    objs = []
    open_ = 0
    # random balanced string of types with outputs s sprinkled at depth 0
    depth = []
    for _ in range(2 * k + rng.randint(0, 1)):
        if depth and rng.random() < .5:
            objs.append(depth.pop().r)
        elif not depth and rng.random() < .2:
            objs.append(s)
        else:
            a = rng.choice([n, n.l, s, n.r])
            depth.append(a)
            objs.append(a)
    while depth:
        objs.append(depth.pop().r)
    cuts, i, cods = [], 0, []
    while i < len(objs):
        m = rng.choice([1, 1, 2, 3])
        cods.append(Ty().tensor(*objs[i:i + m]))
        i += m
    d = Id()
    for w in named_words(rng, cods):
        d = d @ w
    order = rng.random() < .5
    while True:
        can = [i for i in range(len(d.cod) - 1) if d.cod[i].r == d.cod[i + 1]]
        if not can:
            return d
        i = can[0] if order else rng.choice(can)
        d = d >> d.cod[:i] @ Cup(d.cod[i], d.cod[i + 1]) @ d.cod[i + 2:]


def with_boxes(rng):
    """Uniquely named words and boxes with structure in between."""
    d = Id(gen.ty(rng, 0, 1)) if rng.random() < .2 else Id()
    k = 0
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        if r < .4:
            k += 1
            i = rng.randint(0, len(d.cod)) if rng.random() < .3 else len(d.cod)
            w = Word(f'w{k}', rng.choice(CODS))
            d = d >> d.cod[:i] @ w @ d.cod[i:]
        elif r < .7:
            d = gen.close_cups(rng, d, .7)
        elif r < .8 and len(d.cod):
            k += 1
            m = rng.randint(1, min(2, len(d.cod)))
            i = rng.randint(0, len(d.cod) - m)
            d = d >> d.cod[:i] @ Box(f'b{k}', d.cod[i:i + m], gen.ty(rng, 0, 2)) @ d.cod[i + m:]
        elif r < .9 and len(d.cod) > 1:
            i = rng.randint(0, len(d.cod) - 2)
            d = d >> d.cod[:i] @ Swap(d.cod[i], d.cod[i + 1]) @ d.cod[i + 2:]
        elif len(d.cod):
            i = rng.randint(0, len(d.cod) - 1)
            d = d >> d.cod[:i] @ Spider(d.cod[i], 1, 2) @ d.cod[i + 1:]
    return d


def ev_diagram_rewriter(op, rw, d, **extra):
    before = repr(d)
    ok, v = attempt(lambda: rw(d))
    return {'op': op, 'd': proj.diagram(d), 'ok': ok, 'same': repr(d) == before, **extra,
            **({'r': proj.diagram(v)} if ok else {'err': v})}


def ev_list(rng):
    rw = rng.choice([RemoveCupsRewriter(), UnifyCodomainRewriter(), RemoveSwapsRewriter()])
    ds = [pregroup(rng, swaps=.2) for _ in range(rng.randint(0, 3))]
    ok1, one = attempt(lambda: [repr(rw(d)) for d in ds])
    ok, v = attempt(lambda: [repr(x) for x in rw(ds)])
    if not ok1:
        one, v, ok = [], [], not ok
    return {'op': 'list', 'ok': ok, 'rs': v if ok else [], 'one': one}


def run(chk):
    rng = chk.rng
    res = chk.model('P15Model', 'P15ModelThorough.cfg' if chk.thorough else None)
    runs = [json.loads(x.split('|', 1)[1].replace('\\"', '"')) for x in res.prints if x.startswith('@@RUN|')]
    if not runs:
        raise MachineryError('no runs')
    cases, by = [], {}
    for r in runs:
        by.setdefault(tuple(r['rules']), []).append(r['d'])
    for names, ds in sorted(by.items()):
        for i in range(0, len(ds), 40):
            rw = Rewriter(list(names))
            descs = [{'k': 'named', 'name': x} for x in names]
            evs = [{'op': 'new', 'default': False, 'rules': descs, 'ok': True}]
            for j in ds[i:i + 40]:
                d = Id()
                for ly in j['layers']:
                    b = ly['b']
                    t = word_ty(b['d'] if b['k'] == 'cup' else b['c'])
                    d = d >> word_ty(ly['L']) @ (Cup(t[0], t[1]) if b['k'] == 'cup' else Word(b['n'], t)) @ word_ty(ly['R'])
                evs.append(ev_apply(rw, d, descs)[0])
            cases.append({'events': evs})
    chk.conform('P15Trace', cases, label='every sentence of the model')
    chk.conform('P15Trace', [history(rng) for _ in range(chk.n(500, 6000))], label='rewriters over time')
    chk.conform('P15Trace', [{'events': [ev_rule(rng) for _ in range(6)] + [ev_unknown(rng), ev_unify(rng)]}
                             for _ in range(chk.n(200, 2500))], label='single rules')
    cups = RemoveCupsRewriter()
    cases = []
    for _ in range(chk.n(400, 5000)):
        cases.append({'events': [
            ev_diagram_rewriter('nocups', cups, linked(rng), sentence=True),
            ev_diagram_rewriter('nocups', cups, pregroup(rng, swaps=rng.choice([0, .3]), reverse=rng.random() < .3),
                                sentence=False),
            ev_diagram_rewriter('nocups', cups, with_boxes(rng), sentence=False)]})
    chk.conform('P15Trace', cases, label='removing cups')
    cases = []
    for _ in range(chk.n(400, 5000)):
        evs = [ev_diagram_rewriter('noswaps', RemoveSwapsRewriter(), pregroup(rng, swaps=rng.choice([.1, .3, .6])))
               for _ in range(2)]
        if rng.random() < .4:
            evs.append(ev_diagram_rewriter('noswaps', RemoveSwapsRewriter(), with_boxes(rng)))
        evs.append(ev_list(rng))
        cases.append({'events': evs})
    chk.conform('P15Trace', cases, label='removing swaps')


if __name__ == '__main__':
    main('P15', run)

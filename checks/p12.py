"""P12: CCG derivations, judged by spec/P12Trace.tla; derivations come from
the model spec/P12Model.tla (every derivation it reaches) and from a random
generator."""
import json, sys
sys.path.insert(0, '/verif')
from lambeq import CCGTree, CCGType
from lambeq.text2diagram.ccg_rule import CCGRule
from vlib import proj
from vlib.core import attempt, main, MachineryError


def cat(j):
    if j['k'] == 'a':
        return CCGType(j['n'])
    if j['k'] == 'e':
        return CCGType()
    return CCGType(result=cat(j['r']), direction=j['k'], argument=cat(j['a']))


def tree(j):
    if not j['ch']:
        return CCGTree(j['w'], biclosed_type=cat(j['cat']))
    return CCGTree(rule=j['rule'], biclosed_type=cat(j['cat']),
                   children=[tree(x) for x in j['ch']])


def pcat(c):
    if c.is_empty:
        return {'k': 'e'}
    if c.is_atomic:
        return {'k': 'a', 'n': c.name}
    return {'k': c.direction, 'r': pcat(c.result), 'a': pcat(c.argument)}


def ptree(t):
    return {'rule': t.rule.value, 'cat': pcat(t.biclosed_type), 'h': t.height,
            'w': t.text if not t.children else '', 'ch': [ptree(x) for x in t.children]}


def ev_diagram(j, planar, collapse):
    t = tree(j)
    ok, d = attempt(lambda: t.to_diagram(planar=planar, collapse_noun_phrases=collapse))
    return {'op': 'diagram', 'tree': j, 'planar': int(planar), 'collapse': int(collapse),
            'ok': int(ok), 'd': proj.diagram(d) if ok else {}}


def ev_trivial(j):
    t = tree(j)
    before = ptree(t)
    ok, o = attempt(t.without_trivial_unary_rules)
    return {'op': 'trivial', 'tree': j, 'ok': int(ok), 'out': ptree(o) if ok else {},
            'same': int(ptree(t) == before)}


def ev_infer(dom, cod):
    ok, r = attempt(lambda: CCGRule.infer_rule([cat(x) for x in dom], cat(cod)))
    return {'op': 'infer', 'dom': dom, 'cod': cod, 'rule': r.value if ok else str(r)}


def ev_apply(rule, dom, cod):
    ok, d = attempt(lambda: CCGRule(rule)([cat(x) for x in dom], cat(cod)))
    return {'op': 'apply', 'rule': rule, 'dom': dom, 'cod': cod, 'ok': int(ok),
            'd': proj.diagram(d) if ok else {}}


A = lambda n: {'k': 'a', 'n': n}
SL = lambda d, r, a: {'k': d, 'r': r, 'a': a}
GLUE = [A('conj'), A('punc')]


class Gen:
    """Grows a derivation from its root category."""

    def __init__(self, rng, np=False, unary=.08):
        self.rng, self.np, self.unary, self.k = rng, np, unary, 0

    def atom(self):
        return A(self.rng.choice(['n', 's', 'p'] + (['np'] if self.np else [])))

    def cat(self, d=2):
        if d == 0 or self.rng.random() < .45:
            return self.atom()
        return SL(self.rng.choice('/\\'), self.cat(d - 1), self.cat(d - 1))

    def leaf(self, c):
        self.k += 1
        return {'rule': 'L', 'cat': c, 'ch': [], 'w': f'w{self.k}'}

    def node(self, rule, c, doms, depth):
        return {'rule': rule, 'cat': c, 'w': '', 'ch': [self.grow(x, depth - 1) for x in doms]}

    def grow(self, c, depth):
        r = self.rng
        if depth <= 0 or c in GLUE or r.random() < .1:
            return self.leaf(c)
        opts = ['FA', 'BA', 'LP', 'RP']
        if r.random() < self.unary:
            opts = ['U']
        elif c['k'] in '/\\':
            opts += ['comp'] * 6
            if c['r'] == c['a']:
                opts += ['CONJ'] * 3
            a = c['a']
            if a['k'] in '/\\' and a['k'] != c['k'] and a['r'] == c['r']:
                opts += ['TR'] * 4
        o = r.choice(opts)
        if o == 'U':
            x = self.cat(2) if r.random() < .7 or c['k'] == 'a' else \
                SL('/' if c['k'] == '\\' else '\\', self.cat(1), self.cat(1))
            return self.node('U', c, [x], depth)
        if o in ('FA', 'BA'):
            y = self.cat(1)
            return self.node(o, c, [SL('/', c, y), y] if o == 'FA' else [y, SL('\\', c, y)], depth)
        if o == 'LP':
            return self.node(o, c, [A('punc'), c], depth)
        if o == 'RP':
            return self.node(o, c, [c, A('punc')], depth)
        if o == 'CONJ':
            g = r.choice(GLUE)
            return self.node(o, c, [g, c['r']] if c['k'] == '\\' else [c['r'], g], depth)
        if o == 'TR':
            return self.node('FTR' if c['k'] == '/' else 'BTR', c, [c['a']['a']], depth)
        # composition under the n outermost arguments
        args, x, n = [], c, r.randint(1, 3)
        while x['k'] in '/\\' and len(args) < n:
            args.append((x['k'], x['a']))
            x = x['r']
        y = self.cat(1)
        dirs = [a[0] for a in reversed(args)]
        g = y
        for k, a in reversed(args):
            g = SL(k, g, a)
        s = r.choice('/\\')
        if len(dirs) == 1:
            rule = 'C' if dirs[0] == s else 'X'
        elif all(k == s for k in dirs):
            rule = 'C'
        elif dirs[0] != s:
            rule = 'X'
        else:
            return self.leaf(c)
        name = ('G' if len(dirs) > 1 else '') + ('F' if s == '/' else 'B') + rule
        if s == '/' and rule == 'C' and len(dirs) == 1 and r.random() < .4:
            z = self.atom()       # a raised subject as the function
            y = SL('\\', x, z)
            g = SL(args[0][0], y, args[0][1])
        f = SL(s, x, y)
        return self.node(name, c, [f, g] if s == '/' else [g, f], depth)


def mutate(rng, j):
    """Change one node's category or rule."""
    j = json.loads(json.dumps(j))
    nodes, todo = [], [j]
    while todo:
        x = todo.pop()
        nodes.append(x)
        todo += x['ch']
    x = rng.choice(nodes)
    if len(x['ch']) == 2 and rng.random() < .5:
        x['rule'] = rng.choice(['FA', 'BA', 'FC', 'BC', 'FX', 'BX', 'GFC', 'GBC', 'GFX', 'GBX',
                                'LP', 'RP', 'CONJ', 'UNK'])
    else:
        x['cat'] = Gen(rng).cat(2)
    return j


def rename(rng, j):
    """Some n become np, independently at each node (collapsing undoes it)."""
    def c(x):
        if x['k'] == 'a':
            return A('np') if x['n'] == 'n' and rng.random() < .5 else x
        return x if x['k'] == 'e' else SL(x['k'], c(x['r']), c(x['a']))
    return dict(j, cat=c(j['cat']), ch=[rename(rng, x) for x in j['ch']])


def doms(j):
    if j['ch']:
        yield j['rule'], [x['cat'] for x in j['ch']], j['cat']
    for x in j['ch']:
        yield from doms(x)


def run(chk):
    rng = chk.rng
    trees = []
    for cfg in ['P12Model.cfg', 'P12ModelThorough.cfg']:
        r = chk.model('P12Model', cfg=cfg)
        got = [json.loads(x.split('|', 1)[1].replace('\\"', '"').replace('\\\\', '\\'))
               for x in r.prints if x.startswith('@@TREE|')]
        if len(got) < 500:
            raise MachineryError('the model produced too few derivations')
        got.sort(key=lambda j: json.dumps(j, sort_keys=True))
        trees += got if cfg == 'P12Model.cfg' or chk.thorough else rng.sample(got, 1000)
    cases = []
    for j in trees:
        evs = [ev_diagram(j, False, True), ev_diagram(j, True, rng.random() < .5)]
        cases.append({'events': evs})
    chk.conform('P12Trace', cases, label='derivations of the model')
    cases, seen = [], {}
    for k in range(chk.n(900, 9000)):
        g = Gen(rng, np=rng.random() < .3, unary=rng.choice([0, 0, .08, .2]))
        root = g.atom() if rng.random() < .4 else g.cat(3)
        j = g.grow(root, rng.randint(1, 5))
        if not j['ch'] or g.k > 9:
            continue
        evs = [ev_diagram(j, rng.random() < .35, rng.random() < .8), ev_trivial(j)]
        m = mutate(rng, j)
        evs += [ev_diagram(m, rng.random() < .2, True)]
        evs += [ev_diagram(rename(rng, j), False, True)]
        for d in list(doms(j)):
            seen[json.dumps(d)] = d
        for d in list(doms(m)):
            seen[json.dumps(d)] = d
        cases.append({'events': evs})
    chk.conform('P12Trace', cases, label='random derivations')
    for j in trees:
        for d in doms(j):
            seen[json.dumps(d)] = d
    uses = [seen[k] for k in sorted(seen)]
    rng.shuffle(uses)
    cases = []
    for rule, dom, cod in uses[:chk.n(2500, 30000)]:
        evs = [ev_infer(dom, cod)]
        if rule != 'UNK':
            evs.append(ev_apply(rule, dom, cod))
        cod2 = rng.choice(uses)[2]
        evs.append(ev_infer(dom, cod2))
        if len(dom) == 2:
            evs.append(ev_infer(dom[::-1], cod))
        cases.append({'events': evs})
    chk.conform('P12Trace', cases, label='single rules')


if __name__ == '__main__':
    main('P12', run)

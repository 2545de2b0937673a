"""P24: histories of command lines, planned by spec/P24Plan.tla and judged by spec/P24Trace.tla."""
import contextlib, copy, functools, io, itertools, json, os, pickle, shutil, sys
from unittest.mock import patch
sys.path.insert(0, '/verif')
import lambeq, lambeq.cli as cli
import lambeq.backend.drawing as drawing
from lambeq import AtomicType, CCGParser, CCGTree, IQPAnsatz, MPSAnsatz, RemoveSwapsRewriter, Rewriter, SpiderAnsatz, TensorAnsatz, TreeReader, cups_reader, spiders_reader, stairs_reader
from lambeq.backend.tensor import Dim
from vlib.core import attempt, main

# -------------------------------------------------- a stand-in for the parsers
L = lambda t, w: {'type': t, 'rule': 'L', 'text': w}
B = lambda t, r, *c: {'type': t, 'rule': r, 'children': list(c)}
n_ = lambda w: B('n', 'U', L('n', w))
TV = lambda w: L(r'((s\n)/n)', w)
S_ = lambda subj, vp: B('s', 'BA', subj, vp)
VP = lambda v, o: B(r'(s\n)', 'FA', TV(v), o)
NP = lambda d, o: B('n', 'FA', L('(n/n)', d), o)
BX = B('n', 'FA', L('(n/(s/n))', 'What'),
       B('(s/n)', 'FC', B(r'(s/(s\n))', 'FTR', n_('Alice')),
         B(r'((s\n)/n)', 'FC', B(r'((s\n)/(s\n))', 'BX', L(r'((s\n)/(s\n))', 'do'), L(r'((s\n)\(s\n))', 'not')), TV('know'))))
TREES = {   # sentence: derivations by category of the root; the second parser has its own idea of the last one
    'John likes Mary': [S_(n_('John'), VP('likes', n_('Mary')))],
    'the old man sleeps': [S_(NP('the', NP('old', L('n', 'man'))), L(r'(s\n)', 'sleeps'))],
    'cats that run': [B('n', 'BA', L('n', 'cats'), B(r'(n\n)', 'FA', L(r'((n\n)/(s\n))', 'that'), L(r'(s\n)', 'run')))],
    'fish fish': [S_(L('n', 'fish'), L(r'(s\n)', 'fish')), NP('fish', L('n', 'fish'))],
    'What Alice do not know': [BX],
    'John quickly runs': [S_(n_('John'), B(r'(s\n)', 'FA', L(r'((s\n)/(s\n))', 'quickly'), L(r'(s\n)', 'runs')))],
    'John goes home': [S_(n_('John'), B(r'(s\n)', 'FA', L(r'((s\n)/pp)', 'goes'), L('pp', 'home')))],
    'fail here': [],
}
PLAIN = [s for s in TREES if s not in ('fail here', 'John goes home')]


class Fake(CCGParser):
    name = 'bobcat'

    def __init__(self, root_cats=None, verbose='suppress'):
        self.root_cats = root_cats
        self.verbose = verbose

    def one(self, s, tokenised):
        words = list(s) if tokenised else s.split()
        stop = words[-1:] == ['.'] or (not tokenised and s.endswith('.'))
        if stop:
            words = words[:-1] if words[-1] == '.' else words[:-1] + [words[-1][:-1]]
        js = TREES.get(' '.join(words), [])
        want = [c.lower().replace('np', 'n') for c in self.root_cats or ['s', 'n']]
        js = [j for j in js if j['type'] in want]
        if self.name != 'bobcat' and not self.root_cats:
            js = js[::-1]
        if not js:
            return None
        j = copy.deepcopy(js[0])
        return CCGTree.from_json(B(j['type'], 'RP', j, L('punc', '.')) if stop else j)

    def sentences2trees(self, sentences, tokenised=False, suppress_exceptions=False, verbose=None):
        return [self.one(s, tokenised) for s in sentences]


class Fake2(Fake):
    name = 'depccg'


class Tokeniser:
    def split_sentences(self, text):
        out = []
        for line in text.split('\n'):
            for k in line.split('. '):
                out.append(k if k.endswith('.') or k == line.split('. ')[-1] else k + '.')
        return out

    def tokenise_sentences(self, sentences):
        return [(s[:-1] + ' .' if s.endswith('.') else s).split() for s in sentences]


PARSERS = {'bobcat': Fake, 'depccg': Fake2}
READERS = {'spiders': spiders_reader, 'stairs': stairs_reader, 'cups': cups_reader, 'tree': functools.partial(TreeReader, ccg_parser=Fake)}
FLAGS = {'infile': '-i', 'mode': '-m', 'format': '-f', 'image': '-g', 'uopts': '-u', 'outfile': '-o', 'outdir': '-d', 'parser': '-p', 'tokenise': '-t',
         'split': '-s', 'reader': '-r', 'roots': '-c', 'rules': '-w', 'ansatz': '-a', 'aopts': '-n'}
LONG = {'infile': '--input_file', 'mode': '--mode', 'format': '--output_format', 'image': '--image_format', 'uopts': '--output_options', 'outfile': '--output_file',
        'outdir': '--output_dir', 'parser': '--parser', 'tokenise': '--tokenise', 'split': '--split_sentences', 'reader': '--reader', 'roots': '--root_categories',
        'rules': '--rewrite_rules', 'ansatz': '--ansatz', 'aopts': '--ansatz_options'}
OPTS = ['sentence', *FLAGS]


def argv(rng, run):
    g, flags = run['given'], rng.choice([FLAGS, LONG])
    parts = []
    for o in FLAGS:
        v = g[o]
        if not v:
            continue
        if o in ('tokenise', 'split'):
            parts.append([flags[o]])
        elif o in ('uopts', 'aopts'):
            parts.append([flags[o]] + [f'{v[i]}={v[i + 1]}' for i in range(1, len(v), 2)])
        elif v[0] == 'list':
            parts.append([flags[o], *v[1:]])
        else:
            parts.append([flags[o], *v])
    if run['load']:
        parts.append(['-l' if flags is FLAGS else '--load_args', run['load']])
    if run['store']:
        parts.append(['-y' if flags is FLAGS else '--store_args', run['store']])
    rng.shuffle(parts)
    return [*g['sentence'], *(x for p in parts for x in p)]


# --------------------------------------------------- the library calls of a plan
def results(p, stdin, infile):
    """The results of a plan and how each is to be compared."""
    text = p['text'][0] if p['source'] == 'sentence' else (infile if p['source'] == 'file' else stdin).strip()
    tok = Tokeniser()
    sents = tok.split_sentences(text) if p['split'] else text.split('\n')
    if p['tokenise']:
        sents = [tok.tokenise_sentences([s])[0] for s in sents]
    e = p['engine']
    if e['by'] == 'reader':
        r = READERS[e['name']]
        r = r() if callable(r) else r
        ds = [r.sentence2diagram(s, tokenised=p['tokenise']) for s in sents]
        return [d for d in ds if d is not None]
    parser = PARSERS[e['name']](**({'root_cats': e['roots'][1:]} if e['roots'] else {}))
    if e['form'] == 'ccg':
        trees = [parser.sentence2tree(s, tokenised=p['tokenise']) for s in sents]
        return [t.without_trivial_unary_rules() for t in trees if t is not None]
    ds = [parser.sentence2diagram(s, tokenised=p['tokenise']) for s in sents]
    ds = [d for d in ds if d is not None]
    if e['form'] == 'pregroups':
        ds = [RemoveSwapsRewriter()(d.pregroup_normal_form()) for d in ds]
    return ds


def steps(p, ds):
    if p['rules']:
        rules = p['rules'][1:]
        ds = [Rewriter(list(rules))(d).normal_form() for d in ds]
    a = p['ansatz']
    if a['name'] != 'none':
        N, S = AtomicType.NOUN, AtomicType.SENTENCE
        dims = {N: int(a['n']), S: int(a['s'])}
        kw = {k: int(v) for k, v in a['opts']}
        if a['name'] == 'iqp':
            f = IQPAnsatz(dims, **kw)
        else:
            f = {'tensor': TensorAnsatz, 'spider': SpiderAnsatz, 'mps': MPSAnsatz}[a['name']]({t: Dim(k) for t, k in dims.items()}, **kw)
        ds = [f(d) for d in ds]
    return ds


def texts(p, ds):
    ascii_ = p['format'] == 'text-ascii'
    if p['engine']['form'] == 'ccg':
        return '\n'.join(t.deriv(use_ascii=ascii_) for t in ds)
    out = []
    for d in ds:
        if not d.is_pregroup:
            d = d.pregroup_normal_form()
        if not d.is_pregroup:
            raise ValueError
        out.append(d.render_as_str(use_ascii=ascii_))
    return '\n'.join(out)


class Recorder:
    def __init__(self):
        self.calls = []

    def __call__(self, kind, d, **kw):
        self.calls.append((kind, d, kw))
        if kw.get('path'):
            with open(kw['path'], 'w') as f:
                f.write('image')

    def on(self):
        s = contextlib.ExitStack()
        s.enter_context(patch.object(drawing, 'draw', lambda d, **k: self('draw', d, **k)))
        s.enter_context(patch.object(drawing, 'draw_pregroup', lambda d, **k: self('pregroup', d, **k)))
        return s


def same_images(p, ds, calls, tmp):
    """Were these diagrams drawn, in this order, with these options?"""
    if len(calls) != len(ds):
        return False, False
    same = drawn = True
    for d, (kind, got, kw) in zip(ds, calls):
        ref = Recorder()
        with ref.on():
            try:
                d.normal_form().draw(path=tmp)
            except (ValueError, NotImplementedError):
                d.draw(path=tmp)
        rk, rd, _ = ref.calls[-1]
        same &= rk == kind and rd == got
        f = p['figure']
        want = {}
        if f['width'] and f['height']:
            want['figsize'] = (int(f['width']), int(f['height']))
        if f['font']:
            want['fontsize'] = int(f['font'])
        kw = {k: v for k, v in kw.items() if k != 'path'}
        if len(ds) > 1:       # the size is for a single figure; others may ignore it
            kw.pop('figsize', None), want.pop('figsize', None)
        drawn &= kw == want
    return same, drawn


def tree_json(t):
    return t.to_json()


MAGIC = {'png': b'\x89PNG', 'pdf': b'%PDF', 'svg': b'<?xml'}


def event(rng, run, plan, where, stdin, infile, real=False):
    """One run in the current directory: what it wrote, compared with the plan's library calls."""
    p = plan['plan']
    ev = {'raised': '', 'files': [], 'confs': [], 'stdout': '', 'same': True, 'drawn': True, 'lib': '', 'n': 0, 'stem': '', 'ext': ''}
    if p['outfile']:
        stem, ext = os.path.splitext(p['outfile'][0])
        ev['stem'], ev['ext'] = stem, ext[1:] if ext[1:] in cli.AVAILABLE_IMAGE_TYPES else ''
    lib = None
    if plan['verdict'] == 'goes':
        def go():
            ds = steps(p, results(p, stdin, infile))
            return ds, texts(p, ds) if p['format'].startswith('text') else None
        ok, lib = attempt(go)
        if not ok:
            ev['lib'] = str(lib)
        else:
            ev['n'] = len(lib[0])
    keep = {'in.txt', 'a.yaml', 'b.yaml', 'c.yaml'}
    for x in os.listdir('.'):
        if x not in keep:
            shutil.rmtree(x) if os.path.isdir(x) else os.remove(x)
    before = {x: os.stat(x).st_mtime_ns for x in keep if os.path.exists(x)}
    for x in before:
        os.utime(x, ns=(1, 1))
    rec, out = Recorder(), io.StringIO()
    args = argv(rng, run)
    ev['argv'] = args
    with contextlib.ExitStack() as st:
        st.enter_context(patch.object(sys, 'argv', ['lambeq', *args]))
        st.enter_context(patch.object(cli, 'AVAILABLE_PARSERS', PARSERS))
        st.enter_context(patch.object(cli, 'AVAILABLE_READERS', READERS))
        st.enter_context(patch.object(cli, 'SpacyTokeniser', Tokeniser))
        st.enter_context(patch.object(sys, 'stdin', io.StringIO(stdin)))
        st.enter_context(contextlib.redirect_stdout(out))
        st.enter_context(contextlib.redirect_stderr(io.StringIO()))
        if not real:
            st.enter_context(rec.on())
        try:
            cli.main()
        except SystemExit:
            ev['raised'] = 'SystemExit'
        except Exception as e:
            ev['raised'] = type(e).__name__
            if os.environ.get('VERIF_TB'):
                import traceback
                with open(os.environ['VERIF_TB'], 'a') as f:
                    f.write(f'{args}\n' + traceback.format_exc())
    ev['confs'] = [x for x in ('a.yaml', 'b.yaml', 'c.yaml') if os.path.exists(x) and os.stat(x).st_mtime_ns != 1]
    files = {}
    for root, _, names in os.walk('.'):
        for x in names:
            q = os.path.normpath(os.path.join(root, x))
            if q == 'in.txt':
                if os.stat(q).st_mtime_ns != 1:
                    files[q] = b''
            elif q not in keep:
                with open(q, 'rb') as f:
                    files[q] = f.read()
    ev['files'] = sorted(files)
    shown = out.getvalue()
    if p['source'] == 'stdin' and shown.startswith('Text: '):
        shown = shown[len('Text: '):]
    if lib is None or ev['lib'] or ev['raised']:
        ev['stdout'] = 'else' if shown.strip() else ''
        return ev
    ds, text = lib
    fmt = p['format']
    if fmt.startswith('text'):
        if p['outfile']:
            ev['same'] = [b.decode().rstrip('\n') for b in files.values()] == [text]
            ev['stdout'] = 'else' if shown.strip() else ''
        else:
            ev['stdout'] = 'shown' if shown.rstrip('\n') == text else 'else'
        return ev
    ev['stdout'] = 'else' if shown.strip() else ''
    if fmt == 'json':
        ok, got = attempt(lambda: json.loads(next(iter(files.values()))))
        ev['same'] = ok and got == [t.to_json() for t in ds]
    elif fmt == 'pickle':
        ok, got = attempt(lambda: pickle.loads(next(iter(files.values()))))
        if p['engine']['form'] == 'ccg':
            ev['same'] = ok and isinstance(got, list) and [t.to_json() for t in got] == [t.to_json() for t in ds]
        else:
            ev['same'] = ok and got == ds and [type(x) for x in got] == [type(x) for x in ds]
    elif real:
        ev['same'] = len(files) == len(ds) and all(v.startswith(MAGIC[k.rsplit('.', 1)[1]]) for k, v in files.items())
    else:
        ev['same'], ev['drawn'] = same_images(p, ds, rec.calls, os.path.join(where, 'tmp'))
        drew = [os.path.normpath(kw['path']) for _, _, kw in rec.calls]
        ev['same'] &= drew == sorted(drew) == ev['files']
    return ev


# ------------------------------------------------------------------ histories
NONE = {o: [] for o in OPTS}
VALUES = {
    'mode': [['ccg'], ['pregroups'], ['string-diagram']],
    'format': [['pickle'], ['image'], ['json'], ['text-ascii'], ['text-unicode']],
    'image': [['pdf'], ['svg'], ['png']],
    'uopts': [['list', 'fontsize', '9'], ['list', 'fig_width', '4', 'fig_height', '3'], ['list', 'fig_width', '5'], ['list', 'fig_height', '3', 'fontsize', '7', 'fig_width', '6']],
    'outfile': [['out.txt'], ['pic.png'], ['pic'], ['out.pdf'], ['a.b.svg']],
    'outdir': [['pics'], ['deep/er']],
    'parser': [['bobcat'], ['depccg']],
    'tokenise': [['yes']], 'split': [['yes']],
    'reader': [['cups'], ['stairs'], ['spiders'], ['tree']],
    'roots': [['list', 'NP'], ['list', 'S'], ['list', 'NP', 'S']],
    'rules': [['list'], ['list', 'determiner'], ['list', 'preadverb', 'curry'], ['list', 'subject_rel_pronoun', 'auxiliary']],
    'ansatz': [['iqp'], ['tensor'], ['spider'], ['mps']],
    'aopts': [['list', 'dim_n', '1'], ['list', 'dim_s', '3', 'n_layers', '1'], ['list'], ['list', 'dim_n', '3', 'max_order', '4', 'bond_dim', '2'], ['list', 'n_single_qubit_params', '1', 'dim_s', '1']],
    'infile': [['in.txt']],
}
BASES = [{}, {'format': ['pickle'], 'outfile': ['out.pkl']}, {'format': ['image'], 'outdir': ['pics']}, {'format': ['image'], 'outfile': ['pic.png']},
         {'mode': ['ccg'], 'format': ['json'], 'outfile': ['out.json']}, {'format': ['text-ascii'], 'outfile': ['out.txt']},
         {'format': ['pickle'], 'outfile': ['out.pkl'], 'ansatz': ['iqp'], 'aopts': ['list', 'dim_n', '1', 'dim_s', '1']},
         {'format': ['image'], 'outdir': ['pics'], 'ansatz': ['tensor'], 'rules': ['list', 'determiner']},
         {'format': ['pickle'], 'outfile': ['out.pkl'], 'reader': ['cups']}, {'mode': ['pregroups']}]


def sentence(rng):
    if rng.random() < .2:
        return 'fish fish'
    return rng.choice(PLAIN) if rng.random() < .8 else rng.choice(list(TREES))


def text(rng, k=None):
    k = k or rng.choice([1, 2, 3, 3, 12])
    return '\n'.join(sentence(rng) for _ in range(k))


def line(rng, base, extra=(), source=None):
    g = {**copy.deepcopy(NONE), **copy.deepcopy(base)}
    for o, v in extra:
        g[o] = list(v)
    source = source or rng.choice(['sentence', 'sentence', 'infile', 'stdin'])
    if source == 'sentence' and not g['sentence']:
        s = sentence(rng)
        r = rng.random()
        if r < .15:
            s = s + '.'
        elif r < .3:
            s = s + '. ' + sentence(rng) + '.'
        g['sentence'] = [s]
    elif source == 'infile':
        g['infile'] = ['in.txt']
    return {'given': g, 'load': '', 'store': ''}


def deviate(rng, k, among=None):
    os_ = rng.sample(among or list(VALUES)[:-1], k)
    return [(o, rng.choice(VALUES[o])) for o in os_]


def run(chk):
    rng, t = chk.rng, chk.thorough
    chk.model('P24Model', cfg='P24ModelThorough.cfg' if t else 'P24Model.cfg')
    hist = []
    # every value, and every pair of values, of two options next to every base
    singles = [(o, v) for o in VALUES for v in VALUES[o]]
    pairs = [(b, x) for b in BASES for r in (0, 1, 2) for x in itertools.combinations(singles, r) if len({o for o, _ in x}) == r]
    few = [(b, x) for b, x in pairs if len(x) < 2]
    many = [(b, x) for b, x in pairs if len(x) == 2]
    rng.shuffle(many)
    for b, x in few + many[:chk.n(700, 9000)]:
        hist.append([line(rng, b, x)])
    for _ in range(chk.n(300, 4000)):
        hist.append([line(rng, rng.choice(BASES), deviate(rng, rng.choice([3, 4, 5])))])
    # storing and loading
    for _ in range(chk.n(450, 6000)):
        first = line(rng, rng.choice(BASES), deviate(rng, rng.choice([0, 0, 1, 1, 2])))
        first['store'] = rng.choice(['a.yaml', 'a.yaml', 'b.yaml'])
        runs = [first]
        for _ in range(rng.choice([1, 1, 2, 3])):
            src = rng.choice(['none', 'none', 'none', 'sentence', 'infile'])
            r = line(rng, {}, deviate(rng, rng.choice([0, 0, 1, 1, 2])), src)
            r['load'] = rng.choice(['a.yaml', 'a.yaml', 'a.yaml', 'b.yaml', ''])
            r['store'] = rng.choice(['', '', 'a.yaml', 'b.yaml', 'c.yaml'])
            runs.append(r)
        hist.append(runs)
    res = chk.tlc('P24Plan', cases=[{'runs': h} for h in hist])
    plans = {}
    for x in res.prints:
        if x.startswith('@@RUN'):
            j = json.loads(x.split('|', 1)[1].replace('\\"', '"'))
            plans[j['c'] - 1] = j['plans']
    assert len(plans) == len(hist)
    where = os.path.join(chk.scratch, 'p24')
    cases, counts = [], {}
    reals = chk.n(12, 60)
    for k, h in enumerate(hist):
        d = os.path.join(where, 'w')
        os.makedirs(d)
        os.chdir(d)
        infile, stdin = text(rng), text(rng, 1)
        with open('in.txt', 'w') as f:
            f.write(infile + rng.choice(['', '\n', '\n\n']))
        os.utime('in.txt', ns=(1, 1))
        es = []
        for r, p in zip(h, plans[k]):
            q = p['plan']
            real = reals > 0 and p['verdict'] == 'goes' and q['format'] == 'image' and rng.random() < .1 and infile.count('\n') < 3
            reals -= real
            es.append(event(rng, r, p, where, stdin, infile, real))
            counts[p['verdict']] = counts.get(p['verdict'], 0) + 1
        os.chdir(chk.scratch)
        shutil.rmtree(d)
        cases.append({'runs': h, 'events': es})
    chk.notes['verdicts'] = counts
    chk.conform('P24Trace', cases, label='command lines')


if __name__ == '__main__':
    main('P24', run)

"""P18: the bookkeeping of training runs, judged by spec/P18Trace.tla."""
import json, sys
sys.path.insert(0, '/verif')
from vlib.core import main
from vlib import train


def config(rng, kinds=('stub', 'quantum', 'torch'), stop=True, maxE=4):
    N = rng.randint(1, 6)
    B = rng.choice([1, 2, 3, N, max(1, N - 1)])
    B = min(B, N)
    mode = rng.choice(['epoch', 'step'])
    nb = -(-N // B)
    ei = rng.choice([1, 1, 2, 3]) if mode == 'epoch' else rng.randint(1, nb + 2)
    VN = rng.choice([0, 1, 2, 3, 3, 5])
    VB = min(max(VN, 1), rng.choice([1, 2, 3]))
    mets = rng.choice([[], ['acc'], ['acc', 'err1']])
    crit = rng.choice(mets) if mets and VN and rng.random() < .4 else ''
    K = rng.choice([0, 0, 1, 2, 3]) if VN and stop else 0
    return {'kind': rng.choice(kinds), 'N': N, 'B': B, 'E': rng.randint(1, maxE), 'mode': mode, 'ei': ei,
            'every': ei * nb if mode == 'epoch' else ei, 'VN': VN, 'VB': VB, 'mets': mets,
            'evalTrain': rng.random() < .7, 'crit': crit, 'K': K, 'min': rng.random() < .6,
            'shuffle': rng.random() < .7, 'vshuffle': rng.random() < .5, 'seed': rng.randint(0, 99),
            'script': [rng.randint(0, 3) for _ in range(rng.randint(1, 9))], 'mult': rng.choice([1, 1, 3]),
            'log': rng.choice([1, 1, 2]), 'verbose': rng.choice(['suppress', 'suppress', 'suppress', 'text'])}


def schedules(chk):
    """The schedules the model explores: (configuration, crashes) pairs."""
    r = chk.model('P18MC', cfg='P18MCThorough.cfg' if chk.thorough else 'P18MC.cfg')
    out = []
    for x in r.prints:
        if x.startswith('@@RUN|'):
            d = json.loads(x.split('|', 1)[1].replace('\\"', '"'))
            c = d['cfg']
            out.append(({**c, 'kind': 'stub', 'mode': 'step', 'ei': c['every'], 'seed': 1, 'script': d['script'],
                         'mult': 1}, [{'bomb_at': k['bomb']} if k['bomb'] else {'crash_at': k['at']} for k in d['sch']]))
    return out


def run(chk):
    rng = chk.rng
    plans = [x for x in schedules(chk) if not x[1]]
    chk.conform('P18Trace', [train.history(c, k) for c, k in plans], label='model schedules')
    cases = [train.history(config(rng), []) for _ in range(chk.n(400, 4000))]
    chk.conform('P18Trace', cases, label='training runs')


if __name__ == '__main__':
    main('P18', run)

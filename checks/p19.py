"""P19: crash and resume.  Books and files are judged by spec/P18Trace.tla,
equality with the uninterrupted run by spec/P19Trace.tla; spec/P18MC explores
every schedule of small runs, which are replayed into the real trainer."""
import json, sys
sys.path.insert(0, '/verif')
sys.path.insert(0, '/verif/checks')
from vlib.core import main
from vlib import train, realtrain
from p18 import config, schedules


def crashes(rng, calls=14):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if rng.random() < .3:
            out.append({'bomb_at': rng.randint(1, 5)})
        else:
            out.append({'crash_at': rng.randint(1, calls), 'crash_when': rng.choice(['before', 'after'])})
    return out


def run(chk):
    rng = chk.rng
    plans = [x for x in schedules(chk) if x[1]]
    rng.shuffle(plans)
    chk.conform('P18Trace', [train.history(c, k) for c, k in plans[:chk.n(700, 20000)]], label='model schedules')
    cases = [train.history({**config(rng), 'again': rng.random() < .3}, crashes(rng)) for _ in range(chk.n(300, 4000))]
    chk.conform('P18Trace', cases, label='crashed and resumed runs')
    real = []
    for n in realtrain.SETUPS:
        slow = n in ('spsa-jit', 'pennylane', 'rotosolve')
        for _ in range(chk.n(2 if slow else 8, 12 if slow else 80)):
            real.append(realtrain.case(n, realtrain.config(rng), rng))
        for _ in range(chk.n(2 if slow else 3, 10)):
            real.append(realtrain.restore_case(n, rng))
    real += [realtrain.restore_case('tket', rng) for _ in range(chk.n(2, 6))]
    chk.conform('P19Trace', real, label='real trainers, models and optimisers')


if __name__ == '__main__':
    main('P19', run)

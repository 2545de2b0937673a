"""Common machinery of the checks: scratch space, TLC runs, verdicts, evidence.

A check drives the real code, records what it did as JSON, and lets TLC decide
whether the record is a behaviour of the specification in /verif/spec.
"""
from __future__ import annotations
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
import traceback
from contextlib import contextmanager

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')


class Timeout(Exception):
    pass


@contextmanager
def time_limit(sec):
    def handler(signum, frame):
        raise Timeout(f'no answer within {sec}s')
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def attempt(fn, *a, limit=20, **k):
    """Run fn; return (True, value) or (False, exception-class-name)."""
    try:
        with time_limit(limit):
            return True, fn(*a, **k)
    except Timeout:
        return False, 'Timeout'
    except RecursionError:
        return False, 'RecursionError'
    except Exception as e:  # noqa: BLE001 - the verdict belongs to the spec
        if os.environ.get('VERIF_TB'):
            with open(os.environ['VERIF_TB'], 'a') as f:
                f.write(traceback.format_exc() + '=' * 8 + '\n')
        return False, type(e).__name__


class MachineryError(Exception):
    pass


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        self.fails, self.prints, self.done = [], [], 0
        for ln in out.splitlines():
            ln = ln.strip()
            if ln.startswith('"@@FAIL|'):
                p = ln.strip('"').split('|', 3)
                p += [''] * (4 - len(p))
                self.fails.append((int(p[1]), p[2], p[3]))
            elif ln.startswith('"@@DONE|'):
                self.done += int(ln.strip('"').split('|')[1])
            elif ln.startswith('"@@'):
                self.prints.append(ln.strip('"'))
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        self.violated = re.findall(r'Invariant (\S+) is violated', out)
        self.violated += re.findall(r'Action property (\S+) is violated', out)
        self.violated += re.findall(r'Temporal properties were violated', out)
        self.no_error = 'No error has been found' in out
        self.eval_error = (not self.no_error and not self.violated
                           and rc not in (0,) and
                           ('Attempted to' in out or 'TLC threw' in out
                            or 'The error occurred' in out
                            or 'evaluat' in out))


class Check:
    def __init__(self, pid, budget=None):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.budget = budget or (3000 if self.thorough else 420)
        self.rng = random.Random(f'{pid}-{self.seed}')
        self.scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-')
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes = [], {}
        self.violations, self.known_hit = [], []
        self.known = []
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))['findings']
                          if k['property'] == pid and k['status'] == 'known']

    # ---- sizing -------------------------------------------------------
    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 5) \
            if self.thorough else quick

    def time_left(self):
        return self.budget - (time.time() - self.t0)

    # ---- verdicts -----------------------------------------------------
    def violation(self, what, replay, key=None):
        """Record a violation, unless it is a listed known finding."""
        key = key or what
        for k in self.known:
            if k['key'] == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                return
        self.violations.append((what, replay))

    def tlc(self, module, cfg=None, cases=None, env=None, workers=8,
            args=(), timeout=None, ok_violations=False, quiet=False, heap='6g'):
        """Run TLC on spec/<module>.tla from a scratch copy of spec/."""
        work = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith(('.tla', '.cfg')):
                shutil.copy(os.path.join(SPEC, f), work)
        e = dict(os.environ)
        if cases is not None:
            p = os.path.join(work, 'cases.json')
            with open(p, 'w') as fh:
                json.dump(cases, fh)
            e['CASES'] = p
        for k, v in (env or {}).items():
            e[k] = str(v)
        cfgf = cfg or f'{module}.cfg'
        cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC',
               '-Djava.io.tmpdir=' + work, '-cp', JARS,
               'tlc2.TLC', '-workers', str(workers), '-metadir',
               os.path.join(work, 'meta'), '-noGenerateSpecTE',
               '-config', cfgf, *args, f'{module}.tla']
        t = time.time()
        limit = timeout or max(60, self.time_left() + 240)
        try:
            r = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               timeout=limit)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired as ex:
            rc = 124
            out = ex.stdout or ''
            if isinstance(out, bytes):
                out = out.decode(errors='replace')
        res = TLCResult(rc, out, time.time() - t)
        self.states += res.distinct
        self.transitions += res.generated
        if os.environ.get('VERIF_DEBUG'):
            print(f'[tlc {module} rc={rc} {res.wall:.1f}s distinct='
                  f'{res.distinct} fails={len(res.fails)}]')
            if rc != 0:
                print(out[-6000:])
        if rc not in (0, 12, 13) and not res.eval_error:
            raise MachineryError(f'TLC failed on {module} (rc={rc}):\n{out[-3000:]}')
        return res

    def model(self, module, cfg=None, **k):
        """Model check the specification itself: its own properties must hold."""
        r = self.tlc(module, cfg, **k)
        if not r.no_error or r.violated:
            raise MachineryError(f'specification {module}/{cfg} is not '
                                 f'correct by its own properties: {r.violated}\n'
                                 + r.out[-3000:])
        if r.distinct < 2:
            raise MachineryError(f'{module}/{cfg}: vacuous model')
        self.notes.setdefault('models', []).append(
            {'module': module, 'cfg': cfg or module + '.cfg',
             'distinct': r.distinct, 'generated': r.generated})
        return r

    def conform(self, module, cases, cfg=None, label=None, keyf=None, **k):
        """Let TLC judge recorded cases.  The trace module prints
        @@DONE|n for every case it consumed to the end (n events), and
        @@FAIL|case|clause|detail for every clause a case breaks."""
        if not cases:
            raise MachineryError(f'{module}: no cases recorded')
        pending = list(range(len(cases)))
        failed = {}
        chunks = [pending]
        while chunks:
            idx = chunks.pop()
            r = self.tlc(module, cfg, cases=[cases[i] for i in idx], **k)
            if r.eval_error:
                # A record outside the specification's domain makes TLC
                # refuse to evaluate: isolate the record.
                if len(idx) == 1:
                    failed.setdefault(idx[0], []).append(
                        ('outside-domain', _tail(r.out)))
                    continue
                if len(failed) > 3:
                    continue
                h = len(idx) // 2
                chunks += [idx[:h], idx[h:]]
                continue
            for c, clause, detail in r.fails:
                failed.setdefault(idx[c - 1], []).append((clause, detail))
            nd = r.out.count('"@@DONE|')
            if nd != len(idx):
                raise MachineryError(
                    f'{module}: {nd} of {len(idx)} cases consumed\n{r.out[-3000:]}')
        self.traces += len(cases)
        lab = label or module
        self.notes[f'traces:{lab}'] = self.notes.get(f'traces:{lab}', 0) + len(cases)
        for c in cases[:1]:
            s = json.dumps(c)
            self.samples.append({'spec': lab, 'case': c if len(s) < 1500 else s[:1500] + '...'})
        for i, cl in sorted(failed.items()):
            clauses = sorted({c[0] for c in cl})
            key = keyf(cases[i], clauses) if keyf else None
            self.violation(f'{lab}: case {i} breaks {clauses} {cl[0][1][:200]}',
                           {'spec': module, 'clauses': cl, 'case': cases[i]},
                           key=key)
        return failed

    # ---- end ----------------------------------------------------------
    def finish(self):
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': 'model_checking',
              'coverage': {'states': self.states,
                           'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces,
                           'samples': self.samples[:12], **self.notes},
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k in self.known:
            if k['key'] in self.known_hit:
                print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
        if self.violations:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            for j, (what, rep) in enumerate(self.violations[:5]):
                p = os.path.join(d, f'{self.pid}-{j}.json')
                with open(p, 'w') as f:
                    json.dump({'property': self.pid, 'seed': self.seed,
                               'tier': self.tier, 'what': what,
                               'replay': rep}, f, indent=1, default=str)
                print('  ' + what[:600])
                print(f'VIOLATION property={self.pid} replay={p}')
            if os.environ.get('VERIF_DEBUG'):
                import collections, pickle
                cnt = collections.Counter()
                for what, rep in self.violations:
                    for cl in {x[0] for x in rep.get('clauses', [])} or {what[:80]}:
                        cnt[cl] += 1
                print(cnt)
                pickle.dump(self.violations, open('/tmp/viol.pkl', 'wb'))
            print(f'{len(self.violations)} violations')
            return 1
        print(f'OK {self.pid} states={self.states} traces={self.traces} '
              f'wall={time.time()-self.t0:.1f}s')
        return 0


def _tail(out):
    lines = [x for x in out.splitlines() if x.strip()]
    for i, x in enumerate(lines):
        if 'Attempted' in x or 'Error:' in x:
            return ' '.join(lines[i:i + 6])[:400]
    return ' '.join(lines[-6:])[:400]


def main(pid, fn):
    chk = Check(pid)
    cwd = os.path.join(chk.scratch, 'cwd')     # code that writes to its working directory writes here
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    try:
        fn(chk)
        rc = chk.finish()
    except MachineryError as e:
        shutil.rmtree(chk.scratch, ignore_errors=True)
        if chk.violations:   # something was already established
            rc = chk.finish()
        else:
            print('MACHINERY ERROR', e)
            rc = 2
    except Exception:
        shutil.rmtree(chk.scratch, ignore_errors=True)
        tb = traceback.format_exc()
        print(tb)
        # An error that comes out of lambeq itself, on input for which the
        # unchanged tree answers, is behaviour the specification does not allow.
        if '/repo/lambeq' in tb or chk.violations:
            chk.violation('uncaught error from lambeq: ' + tb[-500:], {'traceback': tb})
            rc = chk.finish()
        else:
            rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

"""Explorer framework: counting, parallel exploration, violations, evidence.

A check module defines ID and explore(ctx).  It enumerates a finite space of model
states / operation histories and replays every model transition on the real code.
  rec.state(k)  - k new distinct model states visited
  rec.edge(k)   - k model transitions executed on the implementation and compared
  rec.trace(k)  - k complete model traces (maximal histories) replayed
"""
import collections
import contextlib
import hashlib
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import sys
import time
import traceback

from . import boot

VERIF = boot.VERIF
MAXV = 25
DEBUG = bool(os.environ.get('MC_DEBUG'))


class CaseTimeout(BaseException):
    pass


class Rec:
    """Counters and findings of one worker chunk (picklable)."""

    def __init__(self):
        self.states = 0
        self.edges = 0
        self.traces = 0
        self.viol = []          # (key, message, code)
        self.nviol = 0
        self.known = {}
        self.outcomes = collections.Counter()
        self.samples = []
        self.errors = []
        self.succ = {}          # successor states, merged by the explorer

    def state(self, k=1):
        self.states += k

    def edge(self, k=1):
        self.edges += k

    def trace(self, k=1):
        self.traces += k

    def outcome(self, name, k=1):
        self.outcomes[name] += k

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(str(s)[:600])

    def fail(self, key, msg, code=''):
        self.nviol += 1
        if sum(1 for v in self.viol if v[0] == key) < 3 and len(self.viol) < MAXV:
            self.viol.append((str(key), str(msg)[:3000], code))

    def merge(self, o):
        self.states += o.states
        self.edges += o.edges
        self.traces += o.traces
        self.nviol += o.nviol
        for v in o.viol:
            if len(self.viol) < 4 * MAXV:
                self.viol.append(v)
        self.outcomes.update(o.outcomes)
        for s in o.samples:
            if len(self.samples) < 8:
                self.samples.append(s)
        self.errors += o.errors

    @contextlib.contextmanager
    def case(self, key, desc='', code='', cpu=60.0):
        """One implementation case.  An exception raised out of /repo code, or more than
        `cpu` seconds of this process's CPU time, is a failure of the property."""
        signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
        try:
            yield
        except CaseTimeout:
            self.fail('%s/hang' % key, 'no result within %gs of CPU time: %s' % (cpu, desc() if callable(desc) else desc), code() if callable(code) else code)
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception as e:
            d = desc() if callable(desc) else desc
            c = code() if callable(code) else code
            if not from_repo(e) and DEBUG:
                raise
            # raised by the library, or by the oracle on an object it cannot read
            self.fail('%s/exception/%s' % (key, type(e).__name__),
                      'unexpected %s: %s\n  case: %s\n%s' % (type(e).__name__, e, d, tail(e)), c)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def tail(e, n=6):
    return ''.join(traceback.format_tb(e.__traceback__)[-n:])


def from_repo(e):
    """Did the exception pass through the code under test?"""
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(boot.REPO + '/') or 'interval_arithmetics' in f.filename:
            return True
    return False


def _on_alarm(sig, frame):
    raise CaseTimeout()


def _worker(args):
    func, chunk, extra = args
    signal.signal(signal.SIGVTALRM, _on_alarm)
    rec = Rec()
    try:
        func(rec, chunk, *extra)
    except CaseTimeout:
        rec.fail('hang', 'a case did not finish: %r' % (chunk,))
    except Exception as e:
        if from_repo(e) or not DEBUG:
            rec.fail('exception/' + type(e).__name__,
                     'unexpected %s: %s\n%s' % (type(e).__name__, e, tail(e, 12)))
        else:
            rec.errors.append(''.join(traceback.format_exception(e)))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return rec


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rec = Rec()
        self.bounds = {}
        self.assumptions = []
        self.t0 = time.time()
        self.deadline = self.t0 + (700 if not self.thorough else 3 * 3600)
        self.jobs = int(os.environ.get('VERIF_JOBS', '8'))

    def run(self, func, items, *extra, chunk=None, collect=False):
        """Explore all items in parallel; items are split deterministically in chunks."""
        items = list(items)
        got = []
        if not items:
            return got
        if chunk is None:
            chunk = max(1, min(200, len(items) // (self.jobs * 6) or 1))
        chunks = [items[i:i + chunk] for i in range(0, len(items), chunk)]
        tasks = [(func, c, extra) for c in chunks]
        if self.jobs == 1:
            for t in tasks:
                got.append(_worker(t))
                self.rec.merge(got[-1])
            return got
        with mp.get_context('fork').Pool(min(self.jobs, len(tasks))) as pool:
            pend = [pool.apply_async(_worker, (t,)) for t in tasks]
            for p, t in zip(pend, tasks):
                left = self.deadline - time.time()
                try:
                    r = p.get(max(left, 1.0))
                    self.rec.merge(r)
                    got.append(r)
                except mp.TimeoutError:
                    self.rec.fail('deadline', 'exploration did not finish: the implementation stalls '
                                  'in one of %r' % (t[1][:5],))
                    pool.terminate()
                    break
        return got

    # ------------------------------------------------------------------
    def finish(self):
        rec = self.rec
        known = load_known(self.pid)
        fresh, hit = [], collections.OrderedDict()
        for key, msg, code in rec.viol:
            k = next((e for e in known if e['key'] == key), None)
            if k is not None:
                hit[key] = k
            else:
                fresh.append((key, msg, code))
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {
            'states': rec.states,
            'transitions': rec.edges,
            'traces_validated_against_impl': rec.traces,
            'samples': rec.samples or ['(none)'],
            'exhaustive': True,
            'bounds': self.bounds,
            'distinct_outcomes': len(rec.outcomes),
            'outcomes': dict(rec.outcomes.most_common(40)),
            'binding': 'every transition is executed on the implementation in /repo; extension: '
                       + boot.ext_info(),
            'known_findings_seen': len(hit),
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': 'model_checking', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 2),
              'violations': len(fresh)}
        path = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(path + '.tmp', path)
        for k in hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        print('%s %s: states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs' % (
            self.pid, self.tier, rec.states, rec.edges, rec.traces, len(rec.outcomes), wall))
        if rec.errors and not fresh:
            sys.stderr.write(rec.errors[0])
            print('ERROR in the check machinery')
            return 3
        rdir = os.path.join(VERIF, 'replays', self.pid)
        shutil.rmtree(rdir, ignore_errors=True)
        if fresh:
            os.makedirs(rdir)
            for i, (key, msg, code) in enumerate(fresh[:12]):
                p = os.path.join(rdir, 'v%02d.py' % i)
                with open(p, 'w') as f:
                    f.write('# property %s violated\n# key: %s\n' % (self.pid, key))
                    for line in msg.splitlines():
                        f.write('# ' + line + '\n')
                    f.write('import sys; sys.path.insert(0, "/repo")\n')
                    f.write('import numpy as np\nimport intvalpy as ip\n')
                    f.write('from intvalpy import *\n')
                    f.write((code or '# run: bash check.sh %s' % self.pid) + '\n')
                if i < 4:
                    print('  [%s] %s' % (key, msg.replace('\n', '\n    ')))
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.join(rdir, 'v00.py')))
            return 1
        if rec.edges == 0:
            print('ERROR: nothing explored')
            return 3
        return 0


def load_known(pid):
    """known_findings.txt: lines 'finding: property=<id> key=<key> :: <what fails>'
    and 'fixed: property=<id> <commit> <what failed>' (the latter suppress nothing)."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding:'):
                    head, _, what = line[len('finding:'):].partition('::')
                    parts = dict(p.split('=', 1) for p in head.split() if '=' in p)
                    if parts.get('property') == pid:
                        out.append({'key': parts['key'], 'what': what.strip()})
    return out


def main(argv):
    pid = argv[1]
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    boot.load()
    import importlib
    mod = importlib.import_module('checks.' + pid.lower())
    ctx = Ctx(pid)
    ctx.t0 = time.time()
    try:
        mod.explore(ctx)
    except SystemExit:
        raise
    except Exception as e:
        if from_repo(e) or not DEBUG:
            ctx.rec.fail('exception/' + type(e).__name__,
                         'unexpected %s: %s\n%s' % (type(e).__name__, e, tail(e, 12)))
        else:
            traceback.print_exc()
            print('ERROR in the check machinery')
            return 3
    return ctx.finish()

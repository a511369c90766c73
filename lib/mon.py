"""Check runner: forks one process per case, collects what the monitors observed, decides, writes evidence.

A case is a function case(ctx) that drives the real code and reports to the monitor:
  ctx.rng            numpy Generator derived from (VERIF_SEED, property, case name)
  ctx.dir            private scratch folder (the case's working directory)
  ctx.obs(name, n)   count something a monitor observed
  ctx.sig(...)       what makes this case distinct and non-trivial
  ctx.bad(key, msg)  a violation; key names the mechanism (matched with known_findings.txt)
  ctx.note(...)      a line for the evidence samples
Verdicts are three-valued: exit 0 held, exit 1 violated, exit 3 inconclusive (monitor never reached,
watchdog, out of memory).
"""
import contextlib
import hashlib
import io
import json
import os
import pickle
import resource
import select
import shutil
import signal
import sys
import time
import traceback

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

import numpy as np

import boot

VERIF = boot.VERIF
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


def pick(quick, thorough):
    return thorough if THOROUGH else quick


class CaseSkip(Exception):
    """The case could not be set up (a documented interface it needs is absent)."""


class Ctx:
    def __init__(self, prop, name, params, workdir):
        self.prop, self.name, self.params, self.dir = prop, name, params, workdir
        h = hashlib.sha256(('%d/%s/%s' % (SEED, prop, name)).encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(h[:8], 'big'))
        self.counts, self.viol, self.sigs, self.notes = {}, [], set(), []

    def obs(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def sig(self, *parts):
        self.sigs.add(repr(parts))

    def note(self, text):
        if len(self.notes) < 3:
            self.notes.append(str(text)[:600])

    def bad(self, key, msg, **data):
        if len(self.viol) < 20:
            self.viol.append({'key': key, 'msg': str(msg)[:1500], 'data': json.loads(json.dumps(data, default=str))})

    def check(self, cond, key, msg, **data):
        self.obs('assertions')
        if not cond:
            self.bad(key, msg, **data)
        return bool(cond)

    # ---- driving the code under test
    def call(self, fn, *a, **k):
        """-> (result, exception or None); stdout captured in self.out"""
        buf = io.StringIO()
        exc, res = None, None
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            try:
                res = fn(*a, **k)
            except KeyboardInterrupt:
                raise
            except SystemExit as e:
                exc = e
            except BaseException as e:
                exc = e
        self.out = buf.getvalue()
        self.obs('calls_into_gemlog')
        return res, exc

    def must(self, key, fn, *a, **k):
        """Call that has to succeed; a failure is a violation."""
        res, exc = self.call(fn, *a, **k)
        if exc is not None:
            self.bad(key, '%s raised %s: %s' % (getattr(fn, '__name__', fn), type(exc).__name__, exc),
                     tb=''.join(traceback.format_exception(exc))[-1500:])
            raise Stop()
        return res

    def sub(self, name):
        p = os.path.join(self.dir, name)
        os.makedirs(p, exist_ok=True)
        return p


class Stop(Exception):
    """Raised after a violation has been recorded and the case cannot go on."""


def load_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('status', 'open') == 'open':
                    out.append(d)
    return out


class Check:
    def __init__(self, prop, rule, level='exploration', assumptions=(), need=(), cpu_s=None, wall_s=None, jobs=None):
        self.prop, self.rule, self.level = prop, rule, level
        self.assumptions = list(assumptions)
        self.need = list(need)              # counters that must be > 0 for a verdict
        self.cases = []
        self.cpu_s = cpu_s or pick(150, 600)
        self.wall_s = wall_s or pick(500, 1500)
        self.jobs = jobs or min(8, os.cpu_count() or 1)
        self.t0 = time.time()
        self.extra = {}

    def add(self, name, fn, **params):
        self.cases.append((name, fn, params))

    # ---- one case in a forked child -------------------------------------------------------------
    def _child(self, case, w):
        name, fn, params = case
        resource.setrlimit(resource.RLIMIT_CPU, (self.cpu_s, self.cpu_s + 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        d = os.path.join(boot.scratch(), 'case_%d' % os.getpid())
        os.makedirs(d)
        os.chdir(d)
        os.environ['HOME'] = d
        ctx = Ctx(self.prop, name, params, d)
        status = 'ok'
        sys.stdout.flush()
        try:
            fn(ctx, **params)
        except Stop:
            pass
        except CaseSkip as e:
            status = 'skip: %s' % e
        except (MemoryError,) as e:
            status = 'inconclusive: %s' % e
        except OSError as e:
            if e.errno in (28, 12, 24):     # disk, memory, fds of the harness itself
                status = 'inconclusive: %s' % e
            else:
                ctx.bad('unexpected-exception', 'the monitored execution ended in %s: %s' % (type(e).__name__, e),
                        tb=traceback.format_exc()[-2000:])
        except Exception as e:
            ctx.bad('unexpected-exception', 'the monitored execution ended in %s: %s' % (type(e).__name__, e),
                    tb=traceback.format_exc()[-2000:])
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)
        blob = pickle.dumps((name, status, ctx.counts, ctx.viol, ctx.sigs, ctx.notes))
        with os.fdopen(w, 'wb') as f:
            f.write(blob)
        sys.stdout.flush()
        os._exit(0)

    def _run_cases(self, cases):
        pending = list(cases)
        live = {}
        results = []
        while pending or live:
            while pending and len(live) < self.jobs:
                case = pending.pop(0)
                r, w = os.pipe()
                sys.stdout.flush(), sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setsid()
                        os.close(r)
                        self._child(case, w)
                    except BaseException:
                        traceback.print_exc()
                    os._exit(97)
                os.close(w)
                live[r] = [pid, case, b'', time.time()]
            ready, _, _ = select.select(list(live), [], [], 1.0)
            for r in ready:
                chunk = os.read(r, 1 << 20)
                if chunk:
                    live[r][2] += chunk
                    continue
                pid, case, blob, t = live.pop(r)
                os.close(r)
                _, st = os.waitpid(pid, 0)
                self._killpg(pid)
                if blob:
                    results.append(pickle.loads(blob))
                elif os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU,):
                    results.append((case[0], 'ok', {}, [{'key': 'no-termination', 'msg':
                                    'still running after %d s of CPU time (normal: about a second)' % self.cpu_s,
                                    'data': {}}], set(), []))
                elif os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL:
                    results.append((case[0], 'inconclusive: killed', {}, [], set(), []))
                elif os.WIFSIGNALED(st):
                    results.append((case[0], 'ok', {}, [{'key': 'process-died', 'msg':
                                    'the process running the real code died with signal %d' % os.WTERMSIG(st),
                                    'data': {}}], set(), []))
                else:
                    results.append((case[0], 'inconclusive: child exit %d' % os.WEXITSTATUS(st), {}, [], set(), []))
            for r, rec in list(live.items()):
                if time.time() - rec[3] > self.wall_s:
                    self._killpg(rec[0])
                    try:
                        os.kill(rec[0], signal.SIGKILL)
                    except OSError:
                        pass
        return results

    @staticmethod
    def _killpg(pid):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass

    # ---- whole check ------------------------------------------------------------------------------
    def run(self, only=None):
        cases = [c for c in self.cases if only is None or c[0] in only]
        names = [c[0] for c in cases]
        assert len(set(names)) == len(names), 'duplicate case names'
        results = self._run_cases(cases)
        results.sort(key=lambda r: names.index(r[0]))
        counts, sigs, notes, viol, incon, skipped = {}, set(), [], [], [], []
        for name, status, c, v, s, n in results:
            for k, x in c.items():
                counts[k] = counts.get(k, 0) + x
            sigs |= {(name, q) for q in s}
            notes += [{'case': name, 'observed': q} for q in n]
            viol += [dict(q, case=name) for q in v]
            if status.startswith('inconclusive'):
                incon.append((name, status))
            if status.startswith('skip'):
                skipped.append((name, status))
        known = {(f['property'], f['key']): f for f in load_findings()}
        new, seen_known = [], {}
        for v in viol:
            f = known.get((self.prop, v['key']))
            if f is not None and (not f.get('case') or v['case'].startswith(f['case'])):
                seen_known[v['key']] = f
            else:
                new.append(v)
        for k, f in seen_known.items():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for i, v in enumerate(new):
            path = os.path.join(rdir, '%s_%d.json' % (self.prop, i))
            if i < 40:
                with open(path, 'w') as f:
                    json.dump({'property': self.prop, 'seed': SEED, 'tier': TIER, 'case': v['case'], 'key': v['key'],
                               'msg': v['msg'], 'data': v['data'], 'rerun':
                               'cd /verif && VERIF_SEED=%d VERIF_TIER=%s python checks/run.py %s --case %s'
                               % (SEED, TIER, self.prop, v['case'])}, f, indent=1)
            if v['key'] not in shown or len(shown) > 5:
                print('  [%s] %s: %s' % (v['case'], v['key'], v['msg'][:700]))
            shown.add(v['key'])
        missing = [k for k in self.need if counts.get(k, 0) == 0] if only is None else []
        nontriv = len({s for _, s in sigs})
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
              'level': self.level,
              'coverage': dict({'evaluations': len(results), 'distinct_nontrivial': nontriv, 'rule': self.rule,
                                'samples': notes[:6] or [{'case': n} for n in names[:3]], 'observed': counts,
                                'skipped_cases': [list(s) for s in skipped],
                                'inconclusive_cases': [list(s) for s in incon],
                                'known_findings_seen': sorted(seen_known)}, **self.extra),
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        if self.level == 'fault_enumeration':
            pass
        with open(os.path.join(VERIF, 'evidence', '%s.json' % self.prop), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d cases, %d distinct, observed %s, %.1f s' % (self.prop, len(results), nontriv, counts,
                                                                 time.time() - self.t0))
        if new:
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.join(rdir, '%s_0.json' % self.prop)))
            return 1
        if skipped:
            print('  skipped: %s' % skipped[:5])
        if incon or missing:
            print('INCONCLUSIVE property=%s cases=%s counters never reached=%s' % (self.prop, incon[:5], missing))
            return 3
        return 0

"""Runs the cases of one property: exploration, obligations, replay, evidence, verdict."""
import importlib
import json
import multiprocessing as mp
from multiprocessing.connection import wait as conn_wait
import os
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Case:
    """one harness with fixed structural parameters; data stays symbolic"""

    def __init__(self, fn, name=None, max_time=20.0, max_paths=3000, nl=False, gcd='abstract',
                 witness=12, tie=2, wtie=False, ms=4000, weight=1.0, rnd=False, large=None, **params):
        self.fn, self.params, self.rnd, self.large = fn, params, rnd, large
        self.name = name or fn.__name__ + ('(' + ','.join('%s=%s' % (k, _short(v)) for k, v in params.items()) + ')' if params else '')
        self.max_time, self.max_paths, self.nl, self.gcd = max_time, max_paths, nl, gcd
        self.witness, self.tie, self.wtie, self.ms, self.weight = witness, tie, wtie, ms, weight


def _short(v):
    s = str(v)
    return s if len(s) <= 60 else s[:57] + '...'


def concrete_run(fn, params, inputs):
    """-> (status, label): 'ok' | 'skip' | 'fail' | 'error'"""
    from .api import ConS, Failed, Skip
    S = ConS(inputs)
    import warnings
    try:
        with S.quiet():
            fn(S, **params)
        return 'ok', S.count
    except Skip:
        return 'skip', None
    except Failed as e:
        return 'fail', e.label
    except RecursionError:
        return 'error', 'RecursionError'
    except Exception as e:
        return 'error', 'unexpected %s: %s' % (type(e).__name__, str(e)[:200])


class CaseRun:
    def __init__(self, prop, case, seed, deadline):
        from . import num
        from .engine import Engine
        self.prop, self.case, self.deadline = prop, case, deadline
        self.eng = Engine(nl_check=case.nl, gcd_mode=case.gcd, solver_ms=case.ms, seed=seed,
                          max_paths=case.max_paths, max_time=case.max_time, tie_forks=case.tie)
        num.set_engine(self.eng)
        self.eng.weight_ties = case.wtie
        self.eng.round_atoms = case.rnd
        self.violation = None
        self.incon = []
        self.sample = []
        self.funcs = set()
        self.complete = False
        self.dbg = False

    def try_models(self, claim, label):
        """inputs for a failing claim, replayed on the unmodified code"""
        eng = self.eng
        extra = claim[1] if claim else None
        tried = 0
        for m in eng.models(extra):
            v = eng.input_values(m)
            st, lab = concrete_run(self.case.fn, self.case.params, v)
            eng.stats['replays'] += 1
            tried += 1
            if st in ('fail', 'error'):
                return v, lab
        if claim is not None:
            # nonlinear claims: models of the path alone, tested numerically
            for m in eng.models(None):
                v = eng.input_values(m)
                st, lab = concrete_run(self.case.fn, self.case.params, v)
                eng.stats['replays'] += 1
                if st in ('fail', 'error'):
                    return v, lab
        return None, None

    def on_candidate(self, claim, label):
        from .engine import CaseStop
        v, lab = self.try_models(claim, label)
        if v is not None:
            self.violation = dict(inputs=v, label=lab, claim=label)
            raise CaseStop()
        self.eng.stats['inconclusive'] += 1
        if len(self.incon) < 20:
            self.incon.append('%s: not discharged, no replaying counterexample' % label)
        if claim is None:
            from .engine import PathAbort
            raise PathAbort()

    def one_path(self, prefix, first):
        from .engine import CaseStop, PathAbort, Unsupported
        from .syms import SymS
        eng = self.eng
        eng.reset_path(prefix)
        S = SymS(eng)
        S.obligations = []
        S.on_candidate = self.on_candidate
        try:
            if first:
                self._profile(lambda: self.case.fn(S, **self.case.params))
            else:
                self.case.fn(S, **self.case.params)
            S.flush()
            eng.stats['paths'] += 1
            self._witness(S)
        except PathAbort:
            eng.stats['aborted'] += 1
        except CaseStop:
            raise
        except Unsupported as e:
            eng.stats['unsupported'] += 1
            if len(self.incon) < 20:
                self.incon.append('unsupported: %s' % e)
            self._fallback(S)
        except RecursionError:
            eng.stats['unsupported'] += 1
            self.incon.append('recursion limit')
        except Exception as e:
            # the real code (or the oracle) raised where the harness expects no error
            lab = 'unexpected %s: %s' % (type(e).__name__, str(e)[:200])
            if os.environ.get('VERIF_DEBUG') and not self.dbg:
                self.dbg = True
                traceback.print_exc(limit=-8)
            try:
                self.on_candidate(None, lab)
            except PathAbort:
                eng.stats['aborted'] += 1

    def _witness(self, S):
        """vacuity witness and translator validation: run the real code on a model of this path"""
        from .engine import CaseStop
        eng = self.eng
        n = eng.stats['paths']
        if n > self.case.witness and n % 16:
            return
        if eng.model is None:
            if eng.sat(None, True) is not True:
                return
        if any(a not in eng.model for _, a in eng.inputs):
            return
        v = eng.input_values(eng.model)
        st, lab = concrete_run(self.case.fn, self.case.params, v)
        eng.stats['replays'] += 1
        if st in ('fail', 'error'):
            self.violation = dict(inputs=v, label=lab, claim='concrete run of a path model')
            raise CaseStop()
        if self.case.large and n <= self.case.large:     # values the float type cannot hold exactly
            m = eng.large_model()
            if m is not None and not any(a not in m for _, a in eng.inputs):
                v2 = eng.input_values(m)
                st2, lab2 = concrete_run(self.case.fn, self.case.params, v2)
                eng.stats['replays'] += 1
                if st2 in ('fail', 'error'):
                    self.violation = dict(inputs=v2, label=lab2, claim='concrete run of a path model with large inputs')
                    raise CaseStop()
        if len(self.sample) < 2:
            self.sample.append(dict(case=self.case.name, inputs=v, outcome=st, checks=lab,
                                    decisions=len(eng.trace), linear=len(eng.lin), nonlinear=len(eng.nl)))

    def _fallback(self, S):
        """path left the encoding: still replay one model of it (never counted as a verdict)"""
        from .engine import CaseStop
        eng = self.eng
        try:
            if eng.sat(None) is not True:
                return
        except Exception:
            return
        v = eng.input_values(eng.model)
        st, lab = concrete_run(self.case.fn, self.case.params, v)
        eng.stats['replays'] += 1
        if st in ('fail', 'error'):
            self.violation = dict(inputs=v, label=lab, claim='concrete run of an unencodable path')
            raise CaseStop()

    def _profile(self, f):
        funcs = self.funcs
        src = os.environ.get('VERIF_SRC', '/repo/src')

        def prof(frame, ev, arg):
            if ev == 'call' and frame.f_code.co_filename.startswith(src):
                funcs.add('%s:%s' % (os.path.relpath(frame.f_code.co_filename, src), frame.f_code.co_qualname))
        sys.setprofile(prof)
        try:
            f()
        finally:
            sys.setprofile(None)

    def run(self):
        from .engine import CaseStop
        eng = self.eng
        t0 = time.time()
        stack = [[]]
        n = 0
        try:
            while stack:
                if n and (time.time() - t0 > self.case.max_time or n >= self.case.max_paths or time.time() > self.deadline):
                    break
                prefix = stack.pop()
                self.one_path(prefix, n == 0)
                stack.extend(eng.pending)
                n += 1
            else:
                self.complete = True
        except CaseStop:
            pass
        return dict(case=self.case.name, stats=eng.stats, violation=self.violation, incon=self.incon,
                    complete=self.complete, open_prefixes=len(stack), sample=self.sample, funcs=sorted(self.funcs),
                    wall=time.time() - t0, params={k: _short(v) for k, v in self.case.params.items()},
                    idx=None)


_cases = None


def _work(a):
    prop, idx, seed, deadline = a
    case = _cases[idx]
    sys.setrecursionlimit(20000)
    if time.time() > deadline:
        return dict(case=case.name, skipped=True, idx=idx)
    try:
        r = CaseRun(prop, case, seed, deadline).run()
    except BaseException as e:
        return dict(case=case.name, error=traceback.format_exc()[-3000:], idx=idx)
    r['idx'] = idx
    return r


def load_prop(prop):
    sys.path.insert(0, ROOT)
    return importlib.import_module('props.' + prop.lower())


def confirm(prop, tier, idx, name, viol):
    """write the replay file and run it in a fresh interpreter on the real package"""
    d = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (prop, idx))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, tier=tier, case=name, index=idx, inputs=viol['inputs'], label=viol['label'], claim=viol['claim']), f, indent=1)
    try:
        r = subprocess.run([sys.executable, os.path.join(ROOT, 'replay.py'), path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return path, False, 'replay did not end'
    return path, r.returncode == 1, r.stdout


def known_findings(prop):
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def known_match(findings, case, v):
    for f in findings:
        if f.get('case') == case and f.get('label', '') in v['label']:
            return f
    return None


def _serve(conn):
    try:
        while True:
            job = conn.recv()
            if job is None:
                return
            conn.send(_work(job))
    except (EOFError, OSError, KeyboardInterrupt):
        pass


def farm(jobs, nproc, deadline, per_worker=20):
    """run _work on the jobs in nproc processes; results as they come.  A case that does not answer 90 s after its own limit, or 60 s after the deadline, is killed."""
    ctx = mp.get_context('fork')
    todo = list(reversed(jobs))
    live = {}

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(b,), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None, 0, 0.0]
        feed(a)

    def kill(c):
        p = live.pop(c)[0]
        c.close()
        if p.is_alive():
            p.kill()
        p.join(5)

    def feed(c):
        w = live[c]
        if not todo:
            kill(c)
            return
        w[1] = todo.pop()
        w[2] += 1
        w[3] = min(deadline + 60, time.time() + _cases[w[1][1]].max_time + 90)
        c.send(w[1])

    try:
        for _ in range(min(nproc, len(todo))):
            start()
        while live:
            for c in conn_wait(list(live), timeout=max(0.1, min(w[3] for w in live.values()) - time.time())):
                job = live[c][1]
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    r = dict(case=_cases[job[1]].name, error='worker ended', idx=job[1])
                    kill(c)
                    if todo:
                        start()
                else:
                    if live[c][2] >= per_worker:
                        kill(c)
                        if todo:
                            start()
                    else:
                        feed(c)
                yield r
            for c in [c for c, w in live.items() if time.time() > w[3]]:
                job = live[c][1]
                kill(c)
                if todo:
                    start()
                yield dict(case=_cases[job[1]].name, error='no answer within its time limit', idx=job[1])
    finally:
        for c in list(live):
            kill(c)


def main(prop, tier=None):
    global _cases
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = load_prop(prop)
    budget = float(os.environ.get('VERIF_BUDGET', 0)) or (500 if tier == 'quick' else mod.BUDGET[tier])
    deadline = t0 + budget
    _cases = mod.cases(tier)
    large = getattr(mod, 'LARGE', 0)
    for c in _cases:
        if c.large is None:
            c.large = large
    only = os.environ.get('VERIF_CASE')
    # heavier cases first, families of cases interleaved: a slow family never keeps the others from running
    seen, rank = {}, []
    for c in _cases:
        fam = c.name.split('(')[0]
        seen[fam] = seen.get(fam, 0) + 1
        rank.append(seen[fam])
    order = sorted(range(len(_cases)), key=lambda i: (-_cases[i].weight, rank[i]))
    if only:
        order = [i for i in order if only in _cases[i].name]
    jobs = [(prop, i, seed * 1000003 + i, deadline) for i in order]
    results = []
    findings = known_findings(prop)
    nproc = int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1)
    for r in farm(jobs, nproc, deadline):
        results.append(r)
        v = r.get('violation')
        if v:
            r['confirmed'] = confirm(prop, tier, r['idx'], r['case'], v)
            if r['confirmed'][1] and not known_match(findings, r['case'], v) and not only:
                break
    code = 0
    nviol = 0
    incon = []
    for r in results:
        if r.get('error'):
            incon.append('%s: internal error: %s' % (r['case'], r['error'].strip().splitlines()[-1]))
            if os.environ.get('VERIF_DEBUG'):
                print(r['error'])
        for x in r.get('incon', ()):
            incon.append('%s: %s' % (r['case'], x))
        v = r.get('violation')
        if v:
            path, ok, out = r['confirmed']
            if ok:
                k = known_match(findings, r['case'], v)
                if k:
                    print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                    continue
                nviol += 1
                print('counterexample: case %s, %s, inputs %s' % (r['case'], v['label'], json.dumps(v['inputs'])))
                print('VIOLATION property=%s replay=%s' % (prop, path))
                code = 1
            else:
                incon.append('%s: candidate did not reproduce in a fresh process (%s)' % (r['case'], v['label']))
    done = [r for r in results if 'stats' in r]
    tot = {}
    for r in done:
        for k, x in r['stats'].items():
            tot[k] = tot.get(k, 0) + x
    funcs = sorted({f for r in done for f in r['funcs']})
    notrun = len(jobs) - len(done)
    samples = [s for r in done for s in r['sample']][:8]
    ev = dict(property=prop, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=nviol,
              coverage=dict(
                  explanation=mod.EXPLANATION if hasattr(mod, 'EXPLANATION') else (mod.__doc__ or ''),
                  bounds=getattr(mod, 'BOUNDS', ''),
                  functions_encoded=funcs,
                  cases=len(jobs), cases_completed=sum(1 for r in done if r['complete']),
                  cases_cut_by_budget=[r['case'] for r in done if not r['complete'] and not r.get('violation')][:40],
                  cases_not_run=notrun,
                  paths=tot.get('paths', 0), paths_discarded_by_assumption=tot.get('aborted', 0),
                  decisions=tot.get('decisions', 0), forks=tot.get('forks', 0),
                  obligations=tot.get('obligations', 0), discharged_by_solver=tot.get('discharged_solver', 0),
                  discharged_by_normal_form=tot.get('discharged_identity', 0),
                  solver_queries=tot.get('queries', 0), solver_seconds=round(tot.get('solver_s', 0), 2),
                  solver_unknown=tot.get('unknown', 0), inconclusive=incon[:40], inconclusive_count=len(incon),
                  paths_replayed_on_real_code=tot.get('replays', 0), unsupported_paths=tot.get('unsupported', 0),
                  solver='z3 ' + _z3v(), samples=samples),
              assumptions=getattr(mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d/%d cases (%d complete), %d paths, %d obligations (%d solver, %d normal form), %d queries %.1fs, %d inconclusive, %d replays, %.1fs'
          % (prop, tier, len(done), len(jobs), ev['coverage']['cases_completed'], tot.get('paths', 0), tot.get('obligations', 0),
             tot.get('discharged_solver', 0), tot.get('discharged_identity', 0), tot.get('queries', 0), tot.get('solver_s', 0), len(incon),
             tot.get('replays', 0), time.time() - t0))
    for x in incon[:10]:
        print('INCONCLUSIVE', x)
    if os.environ.get('VERIF_VERBOSE'):
        for r in sorted(done, key=lambda r: -r['wall']):
            print('%7.2fs %5d paths %5d ab %4d unk %s%s%s' % (r['wall'], r['stats']['paths'], r['stats']['aborted'], r['stats']['unknown'], r['case'], '' if r['complete'] else ' CUT(%d open)' % r['open_prefixes'], ' VIOL' if r['violation'] else ''))
    return code


COMMON_ASSUMPTIONS = [
    'weights are encoded as unbounded mathematical integers within the stated ranges, floats as exact rationals (IEEE rounding is outside the encoding; replays run on real floats)',
    'dict, set, gcd, sqrt, random and number-to-text conversion are replaced by their contracts (sx/containers.py, sx/shims.py); everything else is the real code executed by CPython',
    'a symbolic gcd is abstracted to some g > 1 dividing all its arguments, except where a case says exact gcd',
    'while sorting, the order of equal faces with different symbolic weights is explored for at most two ties per path',
]


def _z3v():
    import z3
    return z3.get_version_string()

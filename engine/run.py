#!/usr/bin/env python3-vt
"""Check runner:  run.py <property-id> [--tier quick|thorough]

Compiles /repo's current sources and the property's harness to LLVM IR, executes every
harness symbolically over all paths, discharges each assertion with the solver, replays
counterexamples against a native sanitizer build of the same sources, writes evidence.
Exit 0: held on everything explored. 1: VIOLATION (replayed). 2: no verdict.
"""
import argparse
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)

import z3  # noqa: E402
import build  # noqa: E402
import ir  # noqa: E402
import engine as en  # noqa: E402
import decide  # noqa: E402
import terms as tm  # noqa: E402


class Checker:
    """collects the obligations of one batch of paths"""

    def __init__(self, E, budget, harness=''):
        self.E = E
        self.harness = harness
        if not hasattr(E, 'refuted'):
            E.refuted = {}
        self.budget = budget
        self.labels = {}       # label -> dict
        self.cands = []
        self.live = None

    def rec(self, label):
        r = self.labels.get(label)
        if r is None:
            r = self.labels[label] = dict(n=0, proved={}, unknown=0, cex=0, live=0)
        return r

    def alive(self, r):
        """vacuity: is the path condition satisfiable where the assertion stands?"""
        if r['live']:
            return
        if not any(isinstance(p, tm.B) and not en.is_bv(p) for p in self.E.pc):
            r['live'] = 1
            return
        if decide.find_sample(self.E, [], tries=200) is not None:
            r['live'] = 1
            return
        q, m = decide.z3_check(self.E, [p for p in self.E.pc if isinstance(p, tm.B)], 5000)
        if q == 'sat':
            r['live'] = 1

    def result(self, label, res):
        r = self.rec(label)
        r['n'] += 1
        self.alive(r)
        kind = res[0]
        if kind == 'proved':
            h = res[1].split('(')[0]
            r['proved'][h] = r['proved'].get(h, 0) + 1
        elif kind == 'cex':
            r['cex'] += 1
            k = (self.harness, label)
            self.E.refuted[k] = self.E.refuted.get(k, 0) + 1
            if r['cex'] <= 3:
                self.candidate(label, res[1], res[2] if len(res) > 2 else '')
        else:
            r['unknown'] += 1
            r['why'] = res[1]

    def candidate(self, label, env, why=''):
        env2 = self.concretise(env)
        if env2 is None:
            self.cands.append(dict(label=label, inputs=None, why=why))
        else:
            self.cands.append(dict(label=label, inputs=env2, why=why))

    def concretise(self, env):
        """inputs dict for the native replay"""
        E = self.E
        if env is None or env == 'model':
            m = E.model
            f = None
            if any(k == 'real' for k, *_ in E.inputs):
                f = decide.find_sample(E, [], tries=2000)
                if f is None:
                    q, e2 = decide.find_sample_z3(E, [])
                    if e2 is None:
                        return None if q == 'unsat' else {}
                    f = (e2, None)
            if m is not None:
                E.model = m
            env = f[0] if f else {}
        if E.model is None:
            E.model = E.bv_check()
        if E.model is None:
            return None
        out = {}
        for k, n, v, lo, hi in E.inputs:
            if k == 'int':
                x = E.model.eval(v, model_completion=True).as_long()
                out[n] = en.sx(x, 32)
            elif k == 'pick':
                out[n] = v
            else:
                out[n] = env.get(n)
                if out[n] is None:
                    l = float(lo) if type(lo) is Fraction else 0.25
                    h = float(hi) if type(hi) is Fraction else 4.0
                    out[n] = (l + h) / 2
        return out

    def seen(self, label):
        """an assertion already refuted several times is not decided again"""
        if self.E.refuted.get((self.harness, label), 0) >= 2:
            r = self.rec(label)
            r['n'] += 1
            r['skipped'] = r.get('skipped', 0) + 1
            return True
        return False

    def check_bool(self, c, label):
        if self.seen(label):
            return
        self.result(label, decide.prove_bool(self.E, c, self.budget))

    def check_eq(self, a, b, label):
        if self.seen(label):
            return
        self.result(label, decide.prove_eq(self.E, a, b, self.budget))

    def reach(self, label):
        r = self.rec('reach:' + label)
        r['n'] += 1
        self.alive(r)


def run_paths(E, harness, work, budget, slice_s, maxpaths):
    """explore the paths in work; returns result dict + leftover work"""
    ck = Checker(E, budget, harness)
    E.checker = ck
    E.worklist = list(work)
    t0 = time.time()
    n = 0
    ends = {}
    problems = []
    samples = []
    while E.worklist:
        if n and time.time() - t0 > slice_s:
            break
        pre = E.worklist.pop()
        n += 1
        E.stats['paths'] += 1
        try:
            E.start_path(pre)
            E.lazy('@h_' + harness)()
            ends['completed'] = ends.get('completed', 0) + 1
            if len(samples) < 1 and not ck.cands:
                try:
                    x = ck.concretise(None)
                    if x is not None:
                        samples.append(x)
                except (en.Limit, en.Unsupported):
                    pass
        except en.PathEnd:
            ends['assumed-away'] = ends.get('assumed-away', 0) + 1
        except en.Fault as f:
            ends['fault'] = ends.get('fault', 0) + 1
            r = ck.rec('fault:' + f.kind)
            r['n'] += 1
            r['cex'] += 1
            if r['cex'] <= 3:
                # a fault on an infeasible path is no fault
                inp = ck.concretise(None)
                if inp is None:
                    r['cex'] -= 1
                else:
                    ck.cands.append(dict(label='fault:' + f.kind, inputs=inp, why=str(f)))
        except en.CxxThrow as x:
            ends['exception'] = ends.get('exception', 0) + 1
            r = ck.rec('fault:uncaught-exception')
            r['n'] += 1
            r['cex'] += 1
            if r['cex'] <= 3:
                inp = ck.concretise(None)
                if inp is None:
                    r['cex'] -= 1
                else:
                    ck.cands.append(dict(label='fault:uncaught-exception', inputs=inp, why=E.tiname(x.tinfo)))
        except (en.Unsupported, ir.IRError) as u:
            problems.append('unsupported: %s' % u)
        except en.Limit as u:
            problems.append('limit: %s' % u)
        except z3.Z3Exception as u:
            problems.append('z3: %s' % u)
        E.stats['ticks'] += E.ticks
    st = E.stats
    E.stats = {k: 0 if type(v) is int else 0.0 for k, v in st.items()}
    fr = sorted(E.funcs_run)
    E.funcs_run_all = getattr(E, 'funcs_run_all', set()) | E.funcs_run
    return dict(harness=harness, labels=ck.labels, cands=ck.cands, ends=ends, problems=problems[:5], stats=st,
                left=E.worklist, funcs=fr, samples=samples)


def worker(conn, text, opts):
    try:
        mod = ir.parse(text)
        E = en.Engine(mod, opts)
        while True:
            job = conn.recv()
            if job is None:
                return
            harness, work, budget, slice_s = job
            try:
                r = run_paths(E, harness, work, budget, slice_s, 10 ** 9)
            except Exception:
                r = dict(harness=harness, labels={}, cands=[], ends={}, problems=['internal: ' + traceback.format_exc()],
                         stats={}, left=[], funcs=[], samples=[])
            conn.send(r)
    except EOFError:
        pass


def merge(tot, r):
    for l, x in r['labels'].items():
        y = tot['labels'].setdefault(l, dict(n=0, proved={}, unknown=0, cex=0, live=0))
        for k in ('n', 'unknown', 'cex', 'live'):
            y[k] += x[k]
        if 'why' in x:
            y['why'] = x['why']
        for h, c in x['proved'].items():
            y['proved'][h] = y['proved'].get(h, 0) + c
    tot['cands'] += r['cands']
    tot['problems'] += r['problems']
    for k, v in r['ends'].items():
        tot['ends'][k] = tot['ends'].get(k, 0) + v
    for k, v in r['stats'].items():
        tot['stats'][k] = tot['stats'].get(k, 0) + v
    tot['funcs'] |= set(r['funcs'])
    tot['samples'] += r['samples']


def explore(text, harnesses, opts, budget, limit_s, nproc=8, verbose=False, stop_early=True):
    tots = {h: dict(labels={}, cands=[], problems=[], ends={}, stats={}, funcs=set(), samples=[], done=False, wall=0.0) for h in harnesses}
    queue = [(h, [[]]) for h in harnesses]
    procs = []
    for i in range(min(nproc, 64)):
        a, b = mp.Pipe()
        p = mp.Process(target=worker, args=(b, text, opts), daemon=True)
        p.start()
        b.close()
        procs.append((p, a))
    idle = list(procs)
    busy = {}
    t0 = time.time()
    timeout = False
    while queue or busy:
        while queue and idle:
            h, w = queue.pop(0)
            pr = idle.pop()
            sl = 1.0 if len(queue) + len(idle) < nproc else 0.5
            pr[1].send((h, w, budget, sl))
            busy[pr[1]] = (pr, h, time.time(), w)
        ready = mp.connection.wait(list(busy), timeout=1.0)
        for c in ready:
            pr, h, ts, w = busy.pop(c)
            try:
                r = c.recv()
            except EOFError:
                tots[h]['problems'].append('worker died (memory?)')
                continue
            idle.append(pr)
            merge(tots[h], r)
            tots[h]['wall'] += time.time() - ts
            if verbose:
                print('  %s: %s left %d queue %d' % (h, r['ends'], len(r['left']), len(queue)), flush=True)
            if r['cands'] and os.environ.get('QKV_FIRST'):      # development only: one counterexample is enough
                for x, (pr, h, ts, w) in busy.items():
                    pr[0].kill()
                queue, busy = [], {}
                break
            if r['left'] and not r['problems']:
                left = r['left']
                k = max(1, min(nproc, len(left)))
                for j in range(k):
                    part = left[j::k]
                    if part:
                        queue.append((h, part))
        if time.time() - t0 > limit_s:
            timeout = True
            for c, (pr, h, ts, w) in busy.items():
                tots[h]['problems'].append('exploration time limit (%ds) reached' % limit_s)
                pr[0].kill()
            for h, w in queue:
                tots[h]['problems'].append('exploration time limit (%ds) reached' % limit_s)
            break
    for p, a in procs:
        try:
            a.send(None)
        except Exception:
            pass
    for p, a in procs:
        p.join(0.5)
        if p.is_alive():
            p.kill()
    return tots


def replay(exe, harness, inputs, tier, path, tmp, timeout=60, tol=None, race=False):
    with open(path, 'w') as f:
        f.write('#tier %d\n' % (1 if tier == 'thorough' else 0))
        for k, v in inputs.items():
            f.write('%s %s\n' % (k, repr(v)))
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=255:allocator_may_return_null=0'
    if tol:
        env['QKV_TOL'] = str(tol)
    env['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1:report_signal_unsafe=0:history_size=7'
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:print_stacktrace=0'
    try:
        p = subprocess.run([exe, harness, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout,
                           cwd=tmp, preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_CORE, (0, 0)))
    except subprocess.TimeoutExpired:
        return True, 'does not terminate within %ds' % timeout
    out = p.stdout.decode('utf-8', 'replace')
    if race:
        # only a race reported by ThreadSanitizer confirms one
        if 'WARNING: ThreadSanitizer: data race' in out:
            at = [l.strip() for l in out.splitlines() if 'src/' in l][:2]
            return True, 'ThreadSanitizer: data race ' + ' | '.join(at)[:400]
        return False, out[-400:]
    if p.returncode == 0:
        return False, out[-400:]
    if p.returncode == 77:
        return False, out[-400:]
    lines = [l for l in out.splitlines() if 'QKV-FAIL' in l or 'ERROR: AddressSanitizer' in l or 'runtime error' in l
             or 'terminate called' in l or 'SUMMARY' in l]
    return True, ' | '.join(lines[:4])[:600] or 'exit status %d' % p.returncode


def nearby(c, k):
    import random
    r = random.Random(k)
    d = dict(c)
    d['inputs'] = {n: v * (1 + 1e-3 * r.uniform(-1, 1)) + 1e-3 * r.uniform(-1, 1) if type(v) is float else v
                   for n, v in c['inputs'].items()}
    return d


def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
        return p.stdout.decode().splitlines()
    except Exception:
        return names


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--limit', type=float)
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    props = json.load(open(os.path.join(VERIF, 'harness', 'index.json')))
    pr = props[a.prop]
    if 'driver' in pr:
        sys.path.insert(0, os.path.join(VERIF, 'harness'))
        import importlib
        return importlib.import_module(pr['driver']).main(a, pr)
    t0 = time.time()
    limit = a.limit or (600 if a.tier == 'quick' else 3000)
    budget = 20 if a.tier == 'quick' else 120
    tmp = build.scratch()
    rc = 2
    ev = {}
    units = []
    known = load_known(a.prop)
    viols = []
    unconf = []
    undec = []
    problems = []
    validated = 0
    samples = []
    try:
        for hf in pr['files']:
            src = os.path.join(VERIF, 'harness', hf)
            txt = open(src).read()
            hs = re.findall(r'^QKV_HARNESS\((\w+)\)', txt, re.M)
            if a.tier == 'quick':
                hs = [h for h in hs if not h.startswith('thorough_')]
            if 'only' in pr:
                hs = [h for h in hs if re.fullmatch(pr['only'], h)]
            if a.only:
                hs = [h for h in hs if re.search(a.only, h)]
            if not hs:
                continue
            sub = os.path.join(tmp, hf.replace('.', '_'))
            os.makedirs(sub)
            ll, tus, errs, names = build.build_ir(src, sub, ['h_' + h for h in hs], extra=pr.get('flags'))
            if a.keep:
                print('IR in', os.path.join(sub, 'all.ll'))
            tb = time.time()
            tots = explore(ll, hs, dict(tier=a.tier, verbose=a.v, max_ticks=pr.get('max_ticks', 3000000)), budget,
                           max(30, limit - (time.time() - t0)), nproc=a.j, verbose=a.v)
            exe = None
            texe = None
            for h, t in tots.items():
                t['funcs'] |= set(names)
                units.append((hf, h, t, tus))
                problems += ['%s: %s' % (h, p) for p in sorted(set(t['problems']))]
                bylab = {}
                for c in t['cands']:
                    bylab.setdefault(c['label'], []).append(c)
                for lab, cs in bylab.items():
                    conf = None
                    notes = []
                    tries = cs[:6]
                    if lab != 'no-data-race':       # a special point (few digits, zeros) may hide what its neighbours show
                        tries = tries + [nearby(c, k) for c in cs[:3] if c['inputs'] for k in (1, 2)]
                    for i, c in enumerate(tries):
                        if c['inputs'] is None:
                            notes.append('no concrete input')
                            continue
                        if exe is None:
                            exe = build.build_native(src, sub, extra=pr.get('flags'))
                        rd = os.path.join(VERIF, 'out', 'replay', a.prop)
                        os.makedirs(rd, exist_ok=True)
                        rp = os.path.join(rd, '%s_%s_%d.in' % (h, re.sub(r'\W+', '_', lab)[:40], i))
                        if lab == 'no-data-race':
                            if texe is None:
                                texe = build.build_native(src, sub, extra=pr.get('flags'), tsan=True)
                            bad, why = replay(texe, h, c['inputs'], a.tier, rp, sub, timeout=120, race=True)
                        else:
                            bad, why = replay(exe, h, c['inputs'], a.tier, rp, sub)
                        if bad:
                            conf = (rp, why, c)
                            break
                        notes.append(why)
                    if conf:
                        viols.append((h, lab, conf[0], conf[1], conf[2]['why']))
                    else:
                        unconf.append((h, lab, cs[0].get('why', ''), notes[:2]))
                # cross-check of the encoding: concrete points of explored paths, on the real code
                pick = t['samples'][:1] + t['samples'][-1:] if len(t['samples']) > 1 else t['samples']
                for i, inp in enumerate(pick):
                    if t['cands']:
                        break
                    if exe is None:
                        exe = build.build_native(src, sub, extra=pr.get('flags'))
                    rd = os.path.join(VERIF, 'out', 'replay', a.prop)
                    os.makedirs(rd, exist_ok=True)
                    rp = os.path.join(rd, '%s_sample_%d.in' % (h, i))
                    bad, why = replay(exe, h, inp, a.tier, rp, sub, tol=1e-4)
                    if bad:
                        viols.append((h, 'native-run', rp, why, 'explored path re-run on the real code'))
                    elif 'QKV-DONE' in why:
                        validated += 1
                        if len(samples) < 4:
                            samples.append(dict(harness=h, inputs={k: inp[k] for k in list(inp)[:12]}, native=why.strip()[-80:]))
                for lab, r in t['labels'].items():
                    if r['unknown']:
                        undec.append((h, lab, r['unknown'], r.get('why')))
                    if r['n'] and not r['live'] and not lab.startswith('fault:'):
                        problems.append('%s: assertion %s only reached under an unsatisfiable path condition' % (h, lab))
                if not any(l.startswith('reach:end') for l in t['labels']) and not t['cands']:
                    problems.append('%s: harness never reached its end' % h)
        # ---------------------------------------------------------------- verdict
        newv = []
        seen_known = set()
        for v in viols:
            k = [x for x in known if re.fullmatch(x[0], v[0] + ':' + v[1])]
            if k:
                seen_known.add(k[0])
            else:
                newv.append(v)
        for k in sorted(seen_known):
            print('KNOWN-FINDING: property=%s %s' % (a.prop, k[1]))
        for h, lab, n, why in undec:
            print('UNDECIDED property=%s %s:%s (%d obligations: %s)' % (a.prop, h, lab, n, why))
        for h, lab, rp, why, w2 in newv:
            print('VIOLATION property=%s replay=%s' % (a.prop, rp))
            print('  %s: %s  %s [%s]' % (h, lab, why, w2))
        for u in unconf:
            print('UNCONFIRMED property=%s %s:%s %s %s' % ((a.prop,) + u))
        # exploration cut short (time, path or encoding limits): what was explored still counts, and
        # the evidence says what was not; without any completed path there is no verdict
        done = sum(t['ends'].get('completed', 0) for _, _, t, _ in units)
        cut = [p for p in problems if re.search(r': (exploration time limit|limit:|unsupported:|z3:|worker died)', p)]
        hard = [p for p in problems if p not in cut]
        for p in cut:
            print('INCOMPLETE property=%s %s' % (a.prop, p))
        for p in hard:
            print('PROBLEM property=%s %s' % (a.prop, p))
        if newv:
            rc = 1
        elif hard or not done:
            rc = 2
        else:
            rc = 0
    except build.BuildError as e:
        print('BUILD-ERROR property=%s %s' % (a.prop, e))
        rc = 2
    finally:
        if not a.keep:
            build.cleanup(tmp)
    write_evidence(a, pr, units, rc, time.time() - t0, viols, undec, unconf, problems, known, validated, samples)
    tot = sum(r['n'] for _, _, t, _ in units for l, r in t['labels'].items() if not l.startswith('reach:'))
    print('%s %s: exit %d, %d harnesses, %d paths, %d assertions, %.1fs' % (
        a.prop, a.tier, rc, len(units), sum(t['stats'].get('paths', 0) for _, _, t, _ in units), tot, time.time() - t0))
    return rc


def write_evidence(a, pr, units, rc, wall, viols, undec, unconf, problems, known, validated, samples):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    funcs = set()
    for _, _, t, _ in units:
        funcs |= t['funcs']
    dm = sorted(x for x in demangle(sorted(funcs)) if x.startswith('qk::') or ' qk::' in x)
    st = {}
    hs = []
    for hf, h, t, tus in units:
        for k, v in t['stats'].items():
            st[k] = st.get(k, 0) + v
        hs.append(dict(file=hf, harness=h, paths=t['ends'], solver_and_exec_s=round(t['wall'], 2),
                       assertions={l: dict(instances=r['n'], proved=r['proved'], undecided=r['unknown'],
                                           counterexamples=r['cex'], non_vacuous=bool(r['live']))
                                   for l, r in sorted(t['labels'].items())}))
    nob = sum(r['n'] for _, _, t, _ in units for l, r in t['labels'].items() if not l.startswith('reach:'))
    proved = sum(sum(r['proved'].values()) for _, _, t, _ in units for r in t['labels'].values())
    ev = dict(
        property=a.prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED') or 1), level='model_checking',
        wall_s=round(wall, 2), violations=len(viols),
        assumptions=[
            'double arithmetic is interpreted over the reals (rounding error is outside the encoding)',
            'bounds: ' + str(pr.get('bounds', {}).get(a.tier, pr.get('bounds', {}).get('quick', ''))),
            'outside the bounds: ' + pr.get('outside', ''),
            'output streams and the C++ runtime are modelled (shim/, engine/externs.py); z3 and clang are trusted'],
        coverage=dict(
            verdict={0: 'held', 1: 'violated', 2: 'no verdict'}[rc],
            technique='symbolic execution of LLVM IR compiled from the current sources; assertions decided by z3',
            states=st.get('ticks', 0), transitions=st.get('forks', 0) + st.get('merges', 0) + st.get('paths', 0),
            states_meaning='basic blocks executed symbolically', transitions_meaning='paths plus forked and merged branch decisions',
            traces_validated_against_impl=validated, samples=samples,
            bounds=pr.get('bounds', {}).get(a.tier, pr.get('bounds', {}).get('quick', '')),
            outside_bounds=pr.get('outside', ''),
            functions_encoded=dm[:400],
            translation_units=units[0][3] if units else [],
            paths_explored=st.get('paths', 0),
            assertion_instances=nob, assertion_instances_proved=proved,
            solver_queries=dict(bitvector=st.get('bvq', 0), real=st.get('realq', 0)),
            solver_seconds=round(st.get('bvt', 0) + st.get('realt', 0), 3),
            harnesses=hs,
            violations=[dict(harness=v[0], label=v[1], replay=v[2], observed=v[3]) for v in viols],
            undecided=[list(map(str, u)) for u in undec], unconfirmed=[list(map(str, u)) for u in unconf], problems=problems,
            known_findings=[k[1] for k in known]))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        # a failure of the checker itself is no verdict
        import traceback
        traceback.print_exc(file=sys.stdout)
        rc = 2
    sys.exit(rc)

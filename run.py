"""
Decides one property: explores every scenario of it symbolically, replays
counterexamples and sample paths on the real code, writes the evidence.

    check C01 [--tier quick|thorough] [--only TEXT] [--jobs N] [-v]
    check --replay FILE
"""
import argparse
import json
import os
import random
import select
import signal
import sys
import time
import traceback
from fractions import Fraction

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sx import harness  # noqa
from sx import engine as E  # noqa
from sx import env as ENV  # noqa
from sx import loader  # noqa
from sx import sched  # noqa

EVIDENCE = os.environ.get('SX_EVIDENCE') or os.path.join(HERE, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replays')
KNOWN = os.path.join(HERE, 'known-findings.txt')
MAX_FAILURES = 12
PKG = [None]


# ----------------------------------------------------------------- models

def dump_model(m):
    out = {}
    for k, v in m.items():
        if k == '@apps':
            out[k] = [[n, list(map(int, i)), _dv(x)] for n, i, x in v]
        elif k != '__unknown__' and v is not None:
            out[k] = _dv(v)
    return out


def _dv(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, Fraction):
        return '%d/%d' % (v.numerator, v.denominator)
    return int(v)


def load_model(m):
    out = {}
    for k, v in m.items():
        if k == '@apps':
            out[k] = [(n, tuple(i), _lv(x)) for n, i, x in v]
        elif k == '@sched':
            out[k] = v
        else:
            out[k] = _lv(v)
    return out


def _lv(v):
    return Fraction(v) if isinstance(v, str) else v


# ------------------------------------------------------------- exploration

def explore(sc, tier, seed, conn):
    """Runs in a forked child; sends one JSON object."""
    t0 = time.time()
    opts = sc.opts
    ENV.C.NARROW[0] = opts.get('narrow', 'round')
    E.HASH[0] = opts.get('symhash', False)
    limit = opts.get('time', 100 if tier == 'quick' else 500)
    pkg = PKG[0] or loader.Package()
    solver = E.Solver(timeout_ms=opts.get(
        'timeout_ms', 10000 if tier == 'quick' else 30000))
    eng = E.Engine(solver, max_loop=opts.get('max_loop', 6),
                   max_values=opts.get('max_values', 40),
                   deadline=t0 + limit,
                   max_paths=opts.get('max_paths', 200000))
    rnd = random.Random(seed)
    failures = []
    seen = {}
    witnesses = []
    oddities = []
    reached = {}
    nfail = [0]
    n_wit = opts.get('witnesses', 10 if tier == 'quick' else 40)
    cur = [None]

    def body():
        pkg.fresh()
        sched.start()
        env = ENV.Env(True, pkg, opts=opts)
        cur[0] = env
        try:
            sc.fn(env, **sc.params)
        except Exception as e:
            if eng.pending is not None:
                raise
            # The code under test (or the encoding) raised where the
            # harness did not expect it.
            tb = traceback.format_exc().strip().split('\n')
            if os.environ.get('SX_DEBUG'):
                sys.stderr.write(traceback.format_exc())
            raise E.CheckFailed('unexpected %s: %s [%s]' % (
                type(e).__name__, ENV.brief(e), tb[-3].strip()
                if len(tb) > 2 else ''), None, 'raised')
        finally:
            for r in env.reached:
                reached[r] = reached.get(r, 0) + 1

    def keep(lst, item, cap):
        if len(lst) < cap:
            lst.append(item)
            return True
        return False

    def on_path(kind, x):
        sched.stop()
        if kind == 'failed':
            nfail[0] += 1
            key = x.msg[:120]
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= 3 and len(failures) < MAX_FAILURES:
                m = x.model if x.model is not None else eng.path_model()
                failures.append({'msg': x.msg, 'kind': x.kind,
                                 'model': dump_model(m)})
        elif kind == 'completed':
            n = eng.stats.completed
            if len(witnesses) < n_wit:
                witnesses.append(dump_model(eng.path_model()))
            elif n & (n - 1) == 0 or rnd.random() < float(n_wit) / (4 * n):
                witnesses[rnd.randrange(n_wit)] = dump_model(
                    eng.path_model())
        elif kind in ('unsupported', 'cut'):
            if len([o for o in oddities if o['why'] == x]) < 3 and \
                    len(oddities) < 24:
                oddities.append({'kind': kind, 'why': x,
                                 'model': dump_model(eng.path_model())})

    err = None
    complete = True
    try:
        eng.explore(body, on_path)
        if E.FORK_SITES:
            for k, v in sorted(E.FORK_SITES.items(), key=lambda x: -x[1])[:25]:
                print(v, k, file=sys.stderr)
    except E.SolverError as e:
        err = 'solver: %s' % e
    except Exception:
        err = traceback.format_exc()
    st = eng.stats
    if any('budget' in n for n in st.notes) or err:
        complete = False
    res = {
        'name': sc.name, 'tier': sc.tier, 'paths': st.paths,
        'completed': st.completed, 'infeasible': st.infeasible,
        'cut': st.cut, 'unsupported': st.unsupported,
        'inconclusive': st.inconclusive, 'forks': st.forks,
        'obligations': st.obligations, 'discharged': st.discharged,
        'trivial': st.trivial, 'failed': nfail[0], 'notes': st.notes,
        'queries': solver.queries, 'unknowns': solver.unknowns,
        'solver_s': round(solver.time, 3), 'functions': sorted(eng.funcs),
        'reached': reached, 'complete': complete, 'error': err,
        'failures': failures, 'witnesses': witnesses, 'oddities': oddities,
        'explore_s': round(time.time() - t0, 2),
        'bounds': opts.get('bounds', ''),
    }
    solver.close()
    # Replays, on the real code.
    items = []
    for f in failures:
        for s in range(1 if f['kind'] != 'value' else 3):
            items.append((f['model'], s))
    fails = replay(sc, items, opts.get('replay_timeout', 20))
    i = 0
    for f in failures:
        k = 1 if f['kind'] != 'value' else 3
        outs = fails[i:i + k]
        i += k
        bad = [o for o in outs if o[0] in ('fail', 'hang', 'error')]
        f['replay'] = bad[0] if bad else outs[0]
        f['seed'] = outs.index(bad[0]) if bad else 0
        f['confirmed'] = bool(bad)
    wit = replay(sc, [(m, seed + j % 3) for j, m in enumerate(witnesses)],
                 opts.get('replay_timeout', 20))
    res['validated'] = len([o for o in wit if o[0] == 'ok'])
    res['skipped'] = len([o for o in wit if o[0] == 'skip'])
    res['witness_bad'] = [
        {'msg': 'real code: ' + o[1], 'kind': 'witness', 'model': m,
         'replay': o, 'confirmed': True, 'seed': seed + j % 3}
        for j, (m, o) in enumerate(zip(witnesses, wit))
        if o[0] in ('fail', 'hang', 'error')]
    odd = replay(sc, [(o['model'], s) for o in oddities for s in (0, 1)],
                 opts.get('replay_timeout', 20))
    for j, o in enumerate(oddities):
        for s in (0, 1):
            r = odd[2 * j + s]
            if r[0] in ('fail', 'hang', 'error'):
                res['witness_bad'].append(
                    {'msg': 'real code: ' + r[1], 'kind': 'witness',
                     'model': o['model'], 'replay': r, 'confirmed': True,
                     'seed': s})
                break
    res['wall_s'] = round(time.time() - t0, 2)
    conn.write(json.dumps(res))
    conn.close()


# ------------------------------------------------------------------ replay

def _real_one(sc, pkg, model, seed):
    model = load_model(model)
    if not sc.opts.get('controlled'):
        sched.stop()
    env = ENV.Env(False, pkg, model=model, seed=seed, opts=sc.opts)
    try:
        sc.fn(env, **sc.params)
        return 'ok', ''
    except ENV.RealFailed as e:
        return 'fail', str(e)
    except ENV.Skip:
        return 'skip', ''
    except Exception as e:
        return 'error', 'unexpected %s: %s' % (type(e).__name__,
                                               ENV.brief(e))


def replay(sc, items, timeout, verbose=False):
    """Outcome of each (model, seed) on the real code."""
    results = replay_once(sc, items, timeout, verbose)
    for i, o in enumerate(results):
        if o[0] == 'hang':
            # Perhaps the machine is just busy.
            results[i] = replay_once(sc, [items[i]], 3 * timeout, verbose)[0]
            if results[i][0] == 'hang':
                break
    return results


def replay_once(sc, items, timeout, verbose=False):
    results = [None] * len(items)
    start = 0
    while start < len(items):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                out = os.fdopen(w, 'w')
                if not verbose:
                    fd = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(fd, 2)
                pkg = ENV.RealPackage(loader.REPO,
                                      threads=sc.opts.get('controlled'))
                for i in range(start, len(items)):
                    try:
                        o = _real_one(sc, pkg, *items[i])
                    except BaseException as e:
                        o = ('error', 'unexpected %s: %s' % (
                            type(e).__name__, e))
                    if verbose:
                        print(o, file=sys.stderr)
                    out.write(json.dumps([i] + list(o)) + '\n')
                    out.flush()
            except BaseException as e:
                try:
                    out.write(json.dumps([start, 'error', 'import: %s: %s'
                                          % (type(e).__name__, e)]) + '\n')
                    out.flush()
                except Exception:
                    pass
            finally:
                os._exit(0)
        os.close(w)
        got = b''
        done = start
        eof = False
        while done < len(items) and not eof:
            ready = select.select([r], [], [], timeout)[0]
            if not ready:
                break
            data = os.read(r, 65536)
            if not data:
                eof = True
            got += data
            while b'\n' in got:
                line, got = got.split(b'\n', 1)
                o = json.loads(line.decode())
                results[o[0]] = (o[1], o[2])
                done = o[0] + 1
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        os.close(r)
        if done < len(items):
            results[done] = ('error', 'the process died') if eof else \
                ('hang', 'no result within %d s' % timeout)
            done += 1
        start = done
    return results


# --------------------------------------------------------------------- main

def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line[len('known: property=%s ' % prop):]
                what, _, sel = rest.partition(' :: ')
                scen, _, msg = sel.partition(' => ')
                out.append((scen.strip(), msg.strip(), what.strip()))
    return out


def run(prop, tier, seed, only, jobs, verbose):
    t0 = time.time()
    scs = [s for s in harness.load(prop)
           if s.tier == 'quick' or tier == 'thorough']
    if only:
        scs = [s for s in scs if only in s.name]
    # Longest first, as far as known.
    scs.sort(key=lambda s: -s.opts.get('cost', 1))
    PKG[0] = loader.Package().fresh()
    budget = 780 if tier == 'quick' else 6600
    pending = list(scs)
    running = {}
    results = []
    while pending or running:
        while pending and len(running) < jobs:
            sc = pending.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    explore(sc, tier, seed, os.fdopen(w, 'w'))
                except BaseException:
                    traceback.print_exc()
                    code = 1
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = [sc, pid, b'', time.time()]
        ready = select.select(list(running), [], [], 1.0)[0]
        for r in ready:
            data = os.read(r, 1 << 16)
            if data:
                running[r][2] += data
                continue
            sc, pid, text, started = running.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                res = json.loads(text.decode())
            except ValueError:
                res = {'name': sc.name, 'error': 'worker died',
                       'tier': sc.tier}
            results.append(res)
            if verbose:
                show(res)
        now = time.time()
        for r, (sc, pid, _, started) in list(running.items()):
            if now - t0 > budget:
                os.kill(pid, signal.SIGKILL)
        if now - t0 > budget:
            for sc in pending:
                results.append({'name': sc.name, 'tier': sc.tier,
                                'error': 'not started: out of time'})
            pending = []
    return finish(prop, tier, seed, results, t0)


def show(res):
    if res.get('error') and 'paths' not in res:
        print('  %-60s ERROR %s' % (res['name'], res['error']))
        return
    print('  %-58s paths %d ok %d cut %d uns %d inf %d obl %d q %d %.1fs'
          ' (solver %.1fs) val %d/%d%s' % (
              res['name'], res['paths'], res['completed'], res['cut'],
              res['unsupported'], res['infeasible'], res['obligations'],
              res['queries'], res['wall_s'], res['solver_s'],
              res['validated'], len(res['witnesses']),
              '' if res['complete'] else ' INCOMPLETE'))
    for n, c in sorted(res['notes'].items()):
        print('      note %dx %s' % (c, n))
    if res.get('error'):
        print('      ERROR', res['error'])
    for f in res['failures'] + res['witness_bad']:
        print('      FAIL [%s] %s' % (
            'confirmed' if f['confirmed'] else 'NOT REPRODUCED', f['msg']))
        print('           model %s' % json.dumps(
            {k: v for k, v in f['model'].items() if k != '@apps'}))
        print('           replay %s' % (f['replay'],))
    sys.stdout.flush()


def finish(prop, tier, seed, results, t0):
    if not os.path.isdir(REPLAYS):
        os.makedirs(REPLAYS)
    known = known_findings(prop)
    violations = []
    known_hit = []
    unconfirmed = []
    incon = []
    for res in results:
        if 'paths' not in res:
            incon.append('%s: %s' % (res['name'], res.get('error')))
            continue
        for f in res['failures'] + res['witness_bad']:
            if not f['confirmed']:
                unconfirmed.append((res['name'], f))
                continue
            k = [x for x in known if x[0] == res['name'] and
                 f['msg'].startswith(x[1])]
            if k:
                known_hit.append(k[0])
            else:
                violations.append((res['name'], f))
        if res.get('error'):
            incon.append('%s: %s' % (res['name'], res['error']))
        if res['unsupported']:
            incon.append('%s: %d paths outside the encoding: %s' % (
                res['name'], res['unsupported'], '; '.join(
                    n for n in res['notes'] if n.startswith('unsup'))))
        if not res['complete']:
            incon.append('%s: %s' % (res['name'], 'not exhausted'))
        if res['unknowns'] and res['inconclusive']:
            incon.append('%s: %d unknown answers' % (res['name'],
                                                     res['unknowns']))
        if not res['completed'] and not res['failed']:
            incon.append('%s: vacuous (no path completed)' % res['name'])
    for name, f in unconfirmed:
        incon.append('%s: counterexample not reproduced on the real code: '
                     '%s' % (name, f['msg']))
    nviol = 0
    lines = []
    seen = set()
    for name, f in violations:
        key = (name, f['msg'][:60])
        if key in seen:
            continue
        seen.add(key)
        nviol += 1
        path = os.path.join(REPLAYS, '%s-%d.json' % (prop, nviol))
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'scenario': name,
                       'message': f['msg'], 'observed': f['replay'],
                       'model': f['model'], 'seed': f['seed']}, fh,
                      indent=1)
        lines.append('VIOLATION property=%s replay=%s  # %s: %s -> %s' % (
            prop, path, name, f['msg'][:200], f['replay'][1][:200]))
    for k in sorted(set(known_hit)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    for s in incon:
        print('INCONCLUSIVE: %s' % s)
    ok = [r for r in results if 'paths' in r]
    tot = {k: sum(r[k] for r in ok) for k in (
        'paths', 'completed', 'cut', 'unsupported', 'infeasible',
        'obligations', 'discharged', 'forks', 'queries', 'unknowns',
        'validated')}
    funcs = sorted(set(f for r in ok for f in r['functions']))
    samples = []
    for r in ok:
        for m in r['witnesses'][:1]:
            samples.append({'scenario': r['name'], 'path_model': {
                k: v for k, v in list(m.items())[:40] if k != '@apps'}})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['forks'],
            'traces_validated_against_impl': tot['validated'],
            'samples': samples[:25],
            'paths_completed': tot['completed'],
            'paths_cut_by_bounds': tot['cut'],
            'paths_outside_encoding': tot['unsupported'],
            'obligations': tot['obligations'],
            'obligations_discharged': tot['discharged'],
            'solver': 'z3 4.8.12 (SMT-LIB 2 over a pipe)',
            'solver_queries': tot['queries'],
            'solver_unknown': tot['unknowns'],
            'solver_s': round(sum(r['solver_s'] for r in ok), 2),
            'functions_encoded': funcs,
            'exhaustive': not incon and not tot['cut'],
            'scenarios': [
                {k: r[k] for k in ('name', 'tier', 'paths', 'completed',
                                   'cut', 'unsupported', 'obligations',
                                   'queries', 'solver_s', 'wall_s',
                                   'complete', 'validated', 'bounds',
                                   'notes')} for r in ok],
            'inconclusive': incon,
            'known_findings': sorted(set(k[2] for k in known_hit)),
        },
        'assumptions': assumptions(prop),
        'wall_s': round(time.time() - t0, 2), 'violations': nviol,
    }
    tmp = os.path.join(EVIDENCE, prop + '.json.tmp')
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.rename(tmp, os.path.join(EVIDENCE, prop + '.json'))
    for line in lines:
        print(line)
    print('%s %s: %d scenarios, %d paths (%d cut, %d outside the encoding),'
          ' %d/%d obligations discharged, %d queries, solver %.1f s, %d '
          'paths replayed on the real code, %d violations, %.1f s' % (
              prop, tier, len(results), tot['paths'], tot['cut'],
              tot['unsupported'], tot['discharged'], tot['obligations'],
              tot['queries'], ev['coverage']['solver_s'], tot['validated'],
              nviol, ev['wall_s']))
    if nviol:
        return 1
    if not tot['completed'] and not known_hit:
        print('ERROR: nothing was explored')
        return 2
    return 0


def assumptions(prop):
    m = sys.modules.get('props.' + prop.lower())
    base = [
        'Floating point values are modelled as reals (no rounding, no '
        'overflow); narrowing casts are uninterpreted functions.',
        'numpy, threading and queue are replaced by the models in '
        '/verif/sx; every counterexample and a sample of the explored '
        'paths are replayed on the real code with the real numpy.',
        'Iteration over containers of symbolic length is bounded '
        '(max_loop); paths beyond are counted as cut.',
    ]
    return base + list(getattr(m, 'ASSUMPTIONS', []))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    sys.setrecursionlimit(6000)
    if a.replay:
        d = json.load(open(a.replay))
        sc = [s for s in harness.load(d['property'])
              if s.name == d['scenario']][0]
        out = replay(sc, [(d['model'], d['seed'])], 30, True)[0]
        print(out)
        return 1 if out[0] in ('fail', 'hang', 'error') else 0
    tier = 'thorough' if a.thorough else a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return run(a.prop, tier, seed, a.only, a.jobs, a.v)


if __name__ == '__main__':
    sys.exit(main())

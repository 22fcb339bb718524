"""
plant.py validate ID...   confirm that seeded bugs count: patch applies,
                          changes original lines, tests pass, demo tells
plant.py check ID...      run the check of its property on a patched copy
plant.py make FILE        write seeded/<id>/ for each bug(...) call of FILE

Works on copies under /tmp/plant, several at a time; /repo is not touched.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
TMP = '/tmp/plant'
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# Run with cwd /repo: exit 0 if the behaviour holds, 1 if it is broken.
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return 124, 'timeout'


def copy(name):
    d = os.path.join(TMP, name)
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(TMP, exist_ok=True)
    run(['cp', '-a', '/repo', d], '/')
    return d


def tests(d):
    rc, out = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                   '--timeout=300', 'biggus'], d,
                  {'PYTHONPATH': d, 'PYTHONDONTWRITEBYTECODE': '1',
                   'PYTHONHASHSEED': '0'})
    m = re.search(r'(\d+) passed', out)
    failed = sorted(re.findall(r'^(?:FAILED|ERROR) (\S+)', out, re.M))
    return int(m.group(1)) if m else 0, failed


def original_lines(d):
    """Whether the uncommitted change removes a line of the base commit."""
    base = subprocess.run(['git', 'log', '--format=%H', '--reverse'], cwd=d,
                          stdout=subprocess.PIPE,
                          universal_newlines=True).stdout.split()[0]
    _, diff = run(['git', 'diff', '-U0'], d)
    ours = removed = 0
    path = None
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
        if m:
            n = int(m.group(2) or 1)
            for k in range(n):
                ln = int(m.group(1)) + k
                _, b = run(['git', 'blame', '-l', '-s', '-L', '%d,%d' % (
                    ln, ln), 'HEAD', '--', path], d)
                removed += 1
                ours += not b.lstrip('^').startswith(base[:38])
    return removed, ours


def patched(name, tag):
    d = copy(name + tag)
    rc, out = run(['git', 'apply', os.path.join(SEEDED, name, 'patch.diff')],
                  d)
    if rc:
        raise RuntimeError(name + ': ' + out)
    return d


def validate(name, base):
    d = patched(name, '.v')
    try:
        removed, ours = original_lines(d)
        demo = os.path.join('/tmp/plant', name + '.demo')
        if os.path.exists(demo):
            shutil.rmtree(demo)
        os.makedirs(demo)
        for f in os.listdir(os.path.join(SEEDED, name)):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(SEEDED, name, f), demo)
        clean, o1 = run(['bash', demo + '/demo.sh'], '/repo', timeout=300)
        bad, o2 = run(['bash', demo + '/demo.sh'], d, timeout=300)
        passed, failed = tests(d)
        shutil.rmtree(demo)
        ok = clean == 0 and bad != 0 and passed >= base[0] and \
            not set(failed) - set(base[1]) and removed - ours > 0
        msg = '%s %s: demo %d/%d tests %d %s lines %d (%d ours)' % (
            'ok  ' if ok else 'BAD ', name, clean, bad, passed,
            sorted(set(failed) - set(base[1]))[:3], removed, ours)
        if clean:
            msg += '\n' + o1[-600:]
        return ok, msg + '   | ' + ' '.join(o2.split('\n')[-2:])[:150]
    finally:
        shutil.rmtree(d)


def check(name):
    meta = json.load(open(os.path.join(SEEDED, name, 'meta.json')))
    prop = meta['property']
    d = patched(name, '.c')
    ev = os.path.join(TMP, name + '.ev')
    t = time.time()
    try:
        rc, out = run([os.path.join(HERE, 'check'), prop], HERE,
                      {'SX_REPO': d, 'SX_EVIDENCE': ev})
        lines = [x for x in out.splitlines() if x.startswith('VIOLATION')]
        inc = [x for x in out.splitlines() if x.startswith('INCONC')]
        return bool(rc == 1 and lines), '%s %s by %s in %.0fs: %s%s' % (
            'caught' if rc == 1 and lines else 'MISSED', name, prop,
            time.time() - t, (lines or [''])[0][-160:],
            ' (%d inconclusive: %s)' % (len(inc), inc[0][:120])
            if inc else '')
    finally:
        shutil.rmtree(d)
        shutil.rmtree(ev, ignore_errors=True)


def make(path):
    made = []

    def bug(name, prop, edits, demo, needs, what, file='biggus/_init.py'):
        d = copy(name + '.m')
        if isinstance(edits, tuple):
            edits = [edits]
        for old, new in edits:
            f = os.path.join(d, file)
            s = open(f).read()
            if s.count(old) != 1:
                print('BAD  %s: %d occurrences of %r' % (name, s.count(old),
                                                        old[:80]))
                shutil.rmtree(d)
                return
            open(f, 'w').write(s.replace(old, new))
        _, diff = run(['git', 'diff'], d)
        out = os.path.join(SEEDED, name)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(demo.lstrip('\n'))
        open(out + '/demo.sh', 'w').write(DEMO)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what},
                  open(out + '/meta.json', 'w'), indent=1)
        shutil.rmtree(d)
        made.append(name)
    exec(compile(open(path).read(), path, 'exec'), {'bug': bug})
    return made


def main():
    what, names = sys.argv[1], sys.argv[2:]
    if what == 'make':
        names = make(names[0])
        what = 'validate'
    if not names:
        names = sorted(os.listdir(SEEDED))
    if what == 'validate':
        base = tests('/repo')
        print('unchanged: %d passed, failed: %s' % base)
        with concurrent.futures.ThreadPoolExecutor(6) as pool:
            for ok, msg in pool.map(lambda n: validate(n, base), names):
                print(msg, flush=True)
    else:
        with concurrent.futures.ThreadPoolExecutor(2) as pool:
            for ok, msg in pool.map(check, names):
                print(msg, flush=True)


main()

#!/usr/bin/env python3
"""Driver of the checks: check.py CXX [--thorough] | --replay FILE | --list

Compiles the harnesses of one property against the working tree of the
library (REPO, default /repo), runs the exhaustive exploration, re-executes any
counterexample before reporting it, and rewrites evidence/<id>.json.
"""
import hashlib, json, os, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
HARN = os.path.join(HERE, 'harness')
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

EIGEN = ['-I/usr/include/eigen3']
WARN = ['-w']


def sh(cmd, timeout=None, env=None):
    """Run a command in its own process group, killing the group at the timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return None, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'uncertainties'), HARN]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.hpp', '.cpp', '.h', '.hh')) or '.' not in f:
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fd:
                        h.update(fd.read())
    return h.hexdigest()


def compile_unit(u, th):
    os.makedirs(BUILD, exist_ok=True)
    cxx = u.get('cxx', 'g++')
    std = u.get('std', 'c++14')
    srcs = u['src'] if isinstance(u['src'], list) else [u['src']]
    flags = u.get('flags', [])
    key = hashlib.sha256(json.dumps([th, cxx, std, srcs, flags, u.get('rt'), u.get('rtflags')], sort_keys=True).encode()).hexdigest()[:20]
    exe = os.path.join(BUILD, u['name'] + '-' + key)
    if os.path.exists(exe):
        return exe, None
    for f in os.listdir(BUILD):      # drop the builds of other trees
        if f.startswith(u['name'] + '-'):
            try:
                os.remove(os.path.join(BUILD, f))
            except OSError:
                pass
    tmp = exe + '.tmp%d' % os.getpid()
    base = [cxx, '-std=' + std, '-g0'] + WARN + ['-I' + REPO, '-I' + HARN] + EIGEN
    if u.get('rt'):
        # instrumented sources linked with our own scheduler runtime
        objs = []
        for s in srcs:
            o = tmp + '.' + os.path.basename(s) + '.o'
            rc, out, err = sh(base + ['-O1', '-fsanitize=thread'] + flags + ['-c', os.path.join(HARN, s), '-o', o], 600)
            if rc != 0:
                return None, err or 'compiler timed out'
            objs.append(o)
        ro = tmp + '.rt.o'
        rc, out, err = sh(base + ['-O2'] + u.get('rtflags', []) + ['-c', os.path.join(HARN, u['rt']), '-o', ro], 600)
        if rc != 0:
            return None, 'INFRA ' + (err or 'compiler timed out')
        rc, out, err = sh([cxx] + objs + [ro, '-o', tmp, '-rdynamic'] + ['-Wl,--wrap=' + f for f in ('memcpy', 'memmove', 'memset', 'memcmp', 'malloc', 'calloc', 'realloc', 'free')] + ['-lpthread', '-ldl'] + u.get('libs', []), 600)
        for o in objs + [ro]:
            os.remove(o)
    else:
        opt = [] if any(f.startswith('-O') for f in flags) else ['-O2']
        cmd = base + opt + flags + [os.path.join(HARN, s) for s in srcs] + ['-o', tmp] + u.get('libs', [])
        rc, out, err = sh(cmd, 800)
    if rc != 0:
        return None, err or 'compiler timed out'
    os.rename(tmp, exe)
    return exe, None


def compiler_ok():
    p = os.path.join(BUILD, 'probe%d.cpp' % os.getpid())
    with open(p, 'w') as f:
        f.write('#include <map>\n#include <Eigen/Dense>\nint main(){std::map<int,int> m; return m.size();}\n')
    rc, o, e = sh(['g++', '-std=c++14'] + EIGEN + [p, '-o', p + '.out'], 300)
    for q in (p, p + '.out'):
        if os.path.exists(q):
            os.remove(q)
    return rc == 0


def result_of(out):
    for l in out.splitlines():
        if l.startswith('RESULT '):
            try:
                return json.loads(l[7:], strict=False)
            except ValueError:
                return None
    return None


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:handle_segv=0:allow_user_segv_handler=1:detect_stack_use_after_return=1',
           UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1:print_stacktrace=1')


def run_unit(exe, u, args, timeout):
    cmd = [exe] + args + u.get('args', [])
    return sh(cmd, timeout, ENV)


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k['status'] == 'known']


def write_replay(pid, u, viol, extra='', thorough=False):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    name = os.path.join(d, '%s-%s.json' % (pid, u['name']))
    with open(name, 'w') as f:
        json.dump(dict(property=pid, unit=u['name'], thorough=thorough, violation=viol, log=extra[-6000:],
                       how='python3 check.py --replay ' + name), f, indent=1)
    return name


def report(pid, u, viol, extra='', thorough=False):
    path = write_replay(pid, u, viol, extra, thorough)
    print('property %s is broken (%s): %s' % (pid, viol.get('kind'), viol.get('msg')))
    if viol.get('notes'):
        print('trace: ' + viol['notes'][:3000])
    if extra:
        print(extra[-3000:])
    print('VIOLATION property=%s replay=%s' % (pid, path))
    sys.stdout.flush()


def evidence(pid, tier, cov, t0, nviol):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=CHECKS[pid].get('level', 'model_checking'),
              coverage=cov, assumptions=CHECKS[pid].get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def main(pid, thorough):
    t0 = time.time()
    tier = 'thorough' if thorough else 'quick'
    chk = CHECKS[pid]
    units = [u for u in chk['units'] if thorough or not u.get('thorough_only')]
    th = tree_hash()
    known = load_known(pid)
    totals = dict(executions=0, transitions=0, states=0, checks=0)
    per, samples = [], []
    knownhits = {}
    bad = False
    err = None
    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(lambda u: compile_unit(u, th) if u.get('src') else (None, None), units))
    for u, (exe, cerr) in zip(units, built):
        tu = time.time()
        if u.get('py'):
            import importlib
            r = importlib.import_module(u['py']).run(u, thorough, REPO, BUILD)
            if r.get('error'):
                err = r['error']
                break
            res = r
        elif exe is None:
            if cerr.startswith('INFRA') or not compiler_ok():
                err = 'cannot compile: ' + cerr[-2000:]
                break
            report(pid, u, dict(kind='build', key='build', msg='a program using only the public interface no longer compiles or links', notes='', replay=''), cerr[-4000:])
            bad = True
            break
        else:
            args = ['--thorough'] if thorough else []
            for k in known:
                args += ['--known', k['key']]
            rc, out, er = run_unit(exe, u, args, 36000 if thorough else 800)
            res = result_of(out)
            if rc is None or res is None or rc not in (0, 1):
                # workers die outside the handlers only if memory ran out; try once more, alone
                rc, out, er = run_unit(exe, u, args + ['--workers', '2'], 36000 if thorough else 800)
                res = result_of(out)
            if rc is None or res is None or rc not in (0, 1):
                err = 'harness %s ended with %s: %s %s' % (u['name'], rc, out[-800:], er[-2000:])
                break
        v = res.get('violation')
        if v and not u.get('py'):
            again = None
            extra = er if 'sanitizer' in u['name'] or 'ERROR' in er or 'runtime error' in er else ''
            if v['kind'] in ('property', 'crash', 'hang'):
                rc2, out2, er2 = run_unit(exe, u, (['--thorough'] if thorough else []) + ['--replay', v['replay']] + (['--patient'] if v['kind'] == 'hang' else []), 600)
                r2 = result_of(out2)
                again = (r2 or {}).get('violation')
                if again is not None and again.get('notes'):
                    v['notes'] = again['notes']
                if again is None and r2 is None:
                    again = dict(kind='crash')
                extra = extra or er2[-3000:]
            if again is None:
                # depends on the history of the exploration (for example on state
                # kept by the library between computations): run it all again
                rc2, out2, er2 = run_unit(exe, u, (['--thorough'] if thorough else []), 36000 if thorough else 400)
                again = (result_of(out2) or {}).get('violation')
            if again is None:
                err = 'a violation could not be reproduced: ' + json.dumps(v)
                break
            report(pid, u, v, extra, thorough)
            bad = True
        elif v:
            report(pid, u, v)
            bad = True
        for k in totals:
            totals[k] += res.get(k, 0)
        for k, n in res.get('known', {}).items():
            knownhits[k] = knownhits.get(k, 0) + n
        samples += [dict(harness=u['name'], trace=s[:1500]) for s in res.get('samples', [])[:3]]
        per.append(dict(harness=u['name'], executions=res.get('executions'), states=res.get('states'), transitions=res.get('transitions'), checks=res.get('checks'),
                        max_choices=res.get('maxdepth'), distinct_outcomes=res.get('outcomes'), seconds=round(time.time() - tu, 2),
                        **({'details': res['details']} if 'details' in res else {})))
        if bad:
            break
    cov = dict(states=totals['states'], transitions=totals['transitions'], traces_validated_against_impl=totals['executions'],
               oracle_comparisons=totals['checks'], samples=samples or ['none'], harnesses=per, bounds=chk['bounds'], exhaustive=not bad and err is None,
               meaning='states: distinct abstract (reference model) states reached; transitions: library operations executed from them; '
                       'traces: complete executions of the real library compared step by step with the reference model')
    evidence(pid, tier, cov, t0, 1 if bad else 0)
    if err:
        print('ERROR: ' + err)
        return 3
    if bad:
        return 1
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s %s: held on everything explored: %d executions, %d states, %d transitions, %d comparisons, %.1f s' % (
        pid, tier, totals['executions'], totals['states'], totals['transitions'], totals['checks'], time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    u = [u for u in CHECKS[r['property']]['units'] if u['name'] == r['unit']][0]
    v = r['violation']
    if not v.get('replay') or u.get('py'):
        print(json.dumps(v, indent=1), r.get('log', ''))
        return main(r['property'], False)
    exe, cerr = compile_unit(u, tree_hash())
    if exe is None:
        print(cerr)
        return 1
    rc, out, er = run_unit(exe, u, (['--thorough'] if r.get('thorough') else []) + ['--replay', v['replay']], 600)
    print(out, er)
    if (result_of(out) or {}).get('violation') or rc not in (0,):
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    return 0


if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        sys.exit(replay(a[1]))
    if a and a[0] == '--list':
        print('\n'.join(CHECKS))
        sys.exit(0)
    if a and a[0] == '--all':
        rcs = {c: main(c, '--thorough' in a) for c in CHECKS}
        print(rcs)
        sys.exit(max(rcs.values()))
    sys.exit(main(a[0], '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough'))

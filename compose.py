"""C24: enumerates include orders, language standards, compilers, macro settings and groupings in translation units."""
import itertools, os, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
CANON = ['core', 'ureal', 'ureal2', 'ureals', 'stat', 'math', 'io', 'functions', 'distr', 'impl']
MAIN = '''
namespace compose { void part1(std::vector<double> &, std::string &); void part2(std::vector<double> &, std::string &); }
int main() {
    std::vector<double> o, p; std::string t;
    compose::part1(o, t); PART2
    for (double v : o) std::printf("%.11g ", v);
    std::puts(("|" + t).c_str());
}
'''


def sh(cmd, timeout=600):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, '', 'timeout'


def source(order, tu, main=None, before=()):
    s = ''.join('#define %s\n' % b for b in before)
    s += ''.join('#include <uncertainties/%s.hpp>\n' % h for h in order)
    s += ''.join('#define HAVE_%s\n' % h for h in order)
    if main is not None:
        s += '#include <sstream>\n'
    elif 'io' in order:
        s += '#include <sstream>\n'
    s += '#define TU %d\n#include "compose.hpp"\n' % tu
    if main is not None:
        s += MAIN.replace('PART2', 'compose::part2(o, t);' if main else '')
    return s


def run(u, thorough, repo, build):
    t0 = time.time()
    d = os.path.join(build, 'compose%d' % os.getpid())
    os.makedirs(d)
    try:
        return explore(thorough, repo, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def explore(thorough, repo, d):
    base = ['-w', '-I' + repo, '-I' + os.path.join(HERE, 'harness'), '-I/usr/include/eigen3']
    found = sorted(f[:-4] for f in os.listdir(os.path.join(repo, 'uncertainties')) if f.endswith('.hpp'))
    heads = [h for h in CANON if h in found] + [h for h in found if h not in CANON]
    res = dict(executions=0, states=0, transitions=0, checks=0, samples=[], details=dict(headers=heads))
    missing = [h for h in CANON if h not in found]
    fail = []

    def violation(key, msg, notes):
        if not fail:
            fail.append(dict(kind='property', key=key, msg=msg, notes=notes, replay=''))

    def compile_(name, text, args, cxx='g++', std='c++14', syntax=False):
        p = os.path.join(d, name + '.cpp')
        with open(p, 'w') as f:
            f.write(text)
        out = ['-fsyntax-only'] if syntax else ['-O0', '-c', '-o', os.path.join(d, name + '.o')]
        cmd = [cxx, '-std=' + std] + base + args + out + [p]
        rc, o, e = sh(cmd)
        if rc != 0:
            rc, o, e = sh(cmd)          # not a passing shortage of memory
        res['transitions'] += 1
        return rc == 0, e

    # is the compiler itself all right?
    for cxx in ('g++', 'clang++'):
        ok, e = compile_('probe', '#include <map>\n#include <Eigen/Dense>\nint main() { Eigen::MatrixXd m; return m.size(); }\n', [], cxx, 'c++14', True)
        if not ok:
            return dict(res, error=cxx + ' does not work: ' + e[-500:])
    if missing:
        violation('missing', 'public headers are missing: ' + ' '.join(missing), '')

    # 1. each header alone, each ordered pair (thorough: triple) of headers
    orders = [(h,) for h in heads] + list(itertools.permutations(heads, 2))
    if thorough:
        orders += [o for o in itertools.permutations(heads, 3) if 'ureal' in o or 'ureal2' in o]

    def pair(o):
        if fail:
            return
        stds = [('g++', 'c++11'), ('clang++', 'c++17')] if thorough else [('g++', 'c++11')]
        if len(o) == 1:
            stds = [('g++', 'c++11'), ('clang++', 'c++11'), ('g++', 'c++20'), ('clang++', 'c++20')]
        for cxx, std in stds:
            # first the headers only, then every feature that they offer
            has_core = True
            text = source(o, 1)
            ok, e = compile_('p_%s_%s_%s' % ('_'.join(o), cxx.replace('+', 'p'), std.replace('+', 'p')), text, [], cxx, std, True)
            res['executions'] += 1
            res['checks'] += 1
            if not ok:
                violation('order', 'including %s in this order and using them does not compile (%s -std=%s)' % (', '.join(x + '.hpp' for x in o), cxx, std), e[:2500])
    # 2. complete programs: one or two translation units, many orders, standards and compilers, macros
    def rot(l, k):
        return l[k:] + l[:k]
    n = len(heads)
    seqs = [heads, heads[::-1], rot(heads, n // 2), rot(heads[::-1], n // 3)]
    if thorough:
        seqs += [rot(heads, k) for k in range(1, n) if k != n // 2] + [[a, b] + [h for h in heads if h not in (a, b)] for a in heads for b in heads if a != b]
    macros = [(), ('UNCERTAINTIES_EXTERN_UDOUBLE',), ('UNCERTAINTIES_EXTERN_UDOUBLE2',), ('UNCERTAINTIES_EXTERN_UDOUBLE', 'UNCERTAINTIES_EXTERN_UDOUBLE2')]
    jobs = {}
    for i, s in enumerate(seqs):
        jobs['a%d' % i] = (source(s, 1, True), [], 'g++', 'c++14')
        jobs['b%d' % i] = (source([h for h in s if h != 'impl'], 2), [], 'g++', 'c++14')
    for k, m in enumerate(macros):
        if k:
            for q, s in enumerate(seqs[:3 if thorough else 2]):
                if not thorough and k == 3 and q:
                    continue
                jobs['ma%d_%d' % (k, q)] = (source(s, 1, True, m), [], 'g++', 'c++14')
                jobs['mb%d_%d' % (k, q)] = (source([h for h in s if h != 'impl'], 2, None, m), [], 'g++', 'c++14')
    stds = [(c, s) for c in ('g++', 'clang++') for s in (('c++11', 'c++14', 'c++17', 'c++20', 'c++23') if thorough else ('c++11', 'c++17', 'c++20') if c == 'g++' else ('c++11', 'c++20'))]
    for c, s in stds:
        jobs['s_%s_%s' % (c, s)] = (source(heads, 1, False), [], c, s)

    ok = {}

    def job(kv):
        k, (text, args, cxx, std) = kv
        if fail:
            return
        good, e = compile_(k, text, args, cxx, std)
        ok[k] = good
        res['checks'] += 1
        if not good:
            what = ('with %s ' % text.split('\n')[0] if k[0] == 'm' else '')
            violation('program', 'a complete program does not compile %s(%s -std=%s)' % (what, cxx, std), 'order of inclusion: ' + ' '.join(l[24:-5] for l in text.split('\n') if l.startswith('#include <uncertainties')) + '\n' + e[:2500])

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(job, jobs.items()))
        list(ex.map(pair, orders))
    if fail:
        return dict(res, violation=fail[0], states=res['executions'])

    ref = {}

    def link(objs, kind, cxx='g++'):
        exe = os.path.join(d, 'x_' + '_'.join(objs))
        rc, o, e = sh([cxx] + [os.path.join(d, x + '.o') for x in objs] + ['-o', exe])
        res['checks'] += 1
        res['transitions'] += 1
        if rc != 0:
            violation('link', 'the translation units %s do not link' % ' and '.join(objs), e[:2500])
            return
        rc, o, e = sh([exe], 120)
        os.remove(exe)
        res['executions'] += 1
        res['checks'] += 1
        if rc != 0:
            violation('run', 'the program made of %s fails with status %s' % (' and '.join(objs), rc), (o + e)[:2500])
            return
        if kind not in ref:
            ref[kind] = o
            res['samples'].append(' + '.join(objs) + ': ' + o[:300])
        elif ref[kind] != o:
            violation('result', 'the program made of %s prints something else than with another configuration' % ' and '.join(objs), ref[kind][:1200] + '\n' + o[:1200])
    for i in range(len(seqs)):
        for j in range(len(seqs)):
            if i < 4 and j < 4 or i == j or i == 0 or j == 0:
                link(['a%d' % i, 'b%d' % j], 'two')
    for k in jobs:
        if k.startswith('ma'):
            for q in jobs:
                if q.startswith('mb' + k[2]):
                    link([k, q], 'two')
    for c, s in stds:
        link(['s_%s_%s' % (c, s)], 'one', c)
    # one id sequence: the ids printed by the two units are all different
    two = ref.get('two', '').split(' ')
    one = ref.get('one', '').split(' ')
    if two and one and not fail:
        half = len(one) - 1
        a, b = [int(two[1 + i]) for i in range(3)], None
        nums = []
        for x in two:
            try:
                nums.append(float(x))
            except ValueError:
                break
        if len(nums) >= 4 and len(nums) % 2 == 0:
            b = [int(nums[len(nums) // 2 + 1 + i]) for i in range(3)]
            res['checks'] += 1
            if len(set(a + b)) != 6 or min(a + b) < 1:
                violation('ids', 'the translation units do not share one id sequence: %s and %s' % (a, b), '')
    res['states'] = res['executions']
    res['samples'] += ['include order ' + ' '.join(o) for o in orders[20:22]]
    res['details'].update(pairs_and_singles=len(orders), programs=len(jobs))
    if fail:
        res['violation'] = fail[0]
    return res

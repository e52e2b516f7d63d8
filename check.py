#!/usr/bin/env python3
"""Driver of the checks: builds the harness of a property from /repo's working
tree, runs it, writes evidence/<id>.json, prints the verdict.

    check.py ID              run the check (VERIF_SEED, VERIF_TIER)
    check.py replay FILE     re-run a replay file against the current /repo
    check.py setup           check that the toolchain works
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'lib'))
from config import PROPS  # noqa: E402

INC = ['-I', REPO, '-I', os.path.join(HERE, 'lib'), '-isystem', '/usr/include/eigen3']
BASE_FLAGS = ['-std=c++17', '-O1', '-g0', '-w']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout, **kw):
    """Run in a process group of its own, ended with everything it started."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, 'timeout after %s s' % timeout


class BuildError(Exception):
    pass


class NoAnswer(Exception):
    pass


def no_answer(rc, out):
    """The compiler did not judge the program (killed, out of memory or disk)."""
    return rc is None or rc < 0 or bool(re.search(r'Killed|internal compiler error|out of memory|No space left|Resource temporarily|cannot fork', out))


def build(prop, b, builddir, fuzz=False):
    """Compile the sources of a harness in parallel and link them."""
    name = b['name'] + ('-fuzz' if fuzz else '')
    d = os.path.join(builddir, name)
    os.makedirs(d, exist_ok=True)
    cxx = 'clang++' if fuzz else b.get('cxx', 'g++')
    flags = list(BASE_FLAGS)
    flags += b.get('flags', [])
    if b.get('san') and not fuzz:
        flags += SAN
    ld = list(b.get('ld', []))
    if fuzz:
        flags += ['-DPBT_FUZZER', '-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=undefined', '-O1']
        # quadmath is a library of gcc
        rc, q = sh(['gcc', '-print-file-name=libquadmath.so'], 60)
        gccdir = os.path.dirname(q.strip())
        flags += ['-idirafter', os.path.join(gccdir, 'include')]
        ld += ['-L' + gccdir, '-lquadmath']
    srcs = list(b['src']) + ['lib/main.cpp', 'lib/impl.cpp']
    jobs = []
    for s in srcs:
        src, extra = (s, []) if isinstance(s, str) else (s[0], s[1])
        obj = os.path.join(d, re.sub(r'[^A-Za-z0-9_=.-]', '_', '_'.join([src] + extra)) + '.o')
        jobs.append((src, [cxx] + flags + extra + INC + ['-c', os.path.join(HERE, src), '-o', obj], obj))

    def one(job):
        for _ in range(3):
            rc, out = sh(job[1], 600)
            if rc == 0 or not no_answer(rc, out):
                break
        return job, rc, out

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for job, rc, out in ex.map(one, jobs):
            if rc != 0:
                raise (NoAnswer if no_answer(rc, out) else BuildError)('%s\n%s' % (' '.join(job[1]), out[:6000]))
    exe = os.path.join(d, 'run')
    cmd = [cxx] + flags + [j[2] for j in jobs] + ['-o', exe] + ld
    rc, out = sh(cmd, 300)
    if rc != 0:
        raise (NoAnswer if no_answer(rc, out) else BuildError)('%s\n%s' % (' '.join(cmd), out[:6000]))
    return exe


def mark_sanitized(path):
    s = open(path).read()
    with open(path, 'w') as f:
        f.write(s.replace('\nlaw:', '\nsanitize: yes\nlaw:', 1))


def trivial_compiles(builddir):
    """Can the library be used at all? (Tells a broken sandbox from a broken API.)"""
    os.makedirs(builddir, exist_ok=True)
    src = os.path.join(builddir, 'trivial.cpp')
    with open(src, 'w') as f:
        f.write('#include <uncertainties/ureal.hpp>\n#include <uncertainties/impl.hpp>\n'
                'int main() { uncertainties::udouble x(1, 1); return (x + x).n() == 2 ? 0 : 1; }\n')
    rc, _ = sh(['g++'] + BASE_FLAGS + INC + [src, '-o', src + '.exe'], 300)
    return rc == 0


RUN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=1:allocator_may_return_null=0:hard_rss_limit_mb=3500:abort_on_error=0:exitcode=99:symbolize=0',
    'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'exitcode=99:halt_on_error=1',
}


def known_findings(prop):
    """Lines 'finding: property=<id> law=<law> match=<regex of the message> :: <text>'."""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) law=(\S+) match=(.*?) :: (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == 'setup':
        d = os.path.join(HERE, 'build', 'setup')
        ok = trivial_compiles(d)
        shutil.rmtree(d, ignore_errors=True)
        print('setup:', 'ok' if ok else 'the library does not compile')
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    if len(sys.argv) != 2 or sys.argv[1] not in PROPS:
        log(__doc__)
        return 2
    return check(sys.argv[1])


def replay(path):
    head = open(path).read()
    prop = re.search(r'^property: (\S+)', head, re.M).group(1)
    m = re.search(r'^law: (\S+)', head, re.M)
    cfg = PROPS[prop]
    if 'script' in cfg:
        mod = __import__(cfg['script'])
        return mod.replay(path, REPO, HERE)
    builddir = os.path.join(HERE, 'build', prop + '-replay')
    rc = 2
    for b in cfg['bins']:
        if re.search(r'^sanitize: yes', head, re.M):
            b = dict(b, san=True)
        exe = build(prop, b, builddir)
        _, out = sh([exe, 'list'], 60)
        if any(line.split()[0] == m.group(1) for line in out.splitlines() if line.strip()):
            rc, out = sh([exe, 'replay', '--file', path, '--dir', builddir], 600, env=dict(os.environ, **RUN_ENV))
            print(out)
            break
    shutil.rmtree(builddir, ignore_errors=True)
    return rc


def check(prop):
    t0 = time.time()
    cfg = PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    scale = os.environ.get('VERIF_SCALE', '1')
    builddir = os.environ.get('VERIF_BUILD') or os.path.join(HERE, 'build', prop)
    shutil.rmtree(builddir, ignore_errors=True)
    os.makedirs(builddir)
    replays = os.path.join(HERE, 'replays')
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)

    total = {'evaluations': 0, 'discarded': 0, 'distinct_nontrivial': 0, 'laws': [], 'samples': [], 'violations': [], 'errors': ''}
    fuzz_info = []

    def absorb(r, tag):
        for k in ('evaluations', 'discarded', 'distinct_nontrivial'):
            total[k] += r.get(k, 0)
        for k in ('laws', 'samples', 'violations'):
            total[k] += [dict(x, harness=tag) for x in r.get(k, [])]
        total['errors'] += r.get('errors', '')

    if 'script' in cfg:
        mod = __import__(cfg['script'])
        absorb(mod.run(prop, cfg, seed, tier, float(scale), REPO, HERE, builddir), cfg['script'])
    else:
        bins = [b for b in cfg['bins'] if tier in b.get('tiers', ('quick', 'thorough'))]
        try:
            with concurrent.futures.ThreadPoolExecutor(len(bins)) as ex:
                exes = list(ex.map(lambda b: build(prop, b, builddir), bins))
        except NoAnswer as e:
            log('the compiler was stopped\n', e)
            return 3
        except BuildError as e:
            if not trivial_compiles(builddir):
                log('the library does not compile at all\n', e)
                return 2
            path = os.path.join(replays, '%s-build.txt' % prop)
            with open(path, 'w') as f:
                f.write('property: %s\nA program using only the documented interface does not compile:\n%s\n' % (prop, e))
            log(str(e)[:3000])
            total['violations'].append({'law': 'build', 'replay': path, 'message': 'a program using the documented interface does not compile'})
            exes = []
        limit = cfg.get('timeout', 840) if tier == 'quick' else 6 * 3600

        def execute(b, exe, scale):
            out = os.path.join(builddir, b['name'] + '.json')
            if os.path.exists(out):
                os.unlink(out)
            cmd = [exe, 'run', '--seed', str(seed), '--tier', tier, '--dir', os.path.join(builddir, b['name'] + '-run'),
                   '--out', out, '--property', prop, '--scale', str(scale), '--workers', str(b.get('workers', 8))]
            rc, txt = sh(cmd, limit, env=dict(os.environ, **RUN_ENV))
            if 'ThreadSanitizer: unexpected memory mapping' in txt:
                # the address space is randomised too much for it
                rc, txt = sh(['setarch', '-R'] + cmd, limit, env=dict(os.environ, **RUN_ENV))
            if rc is None or not os.path.exists(out):
                log('harness %s of %s ended with %s:\n%s' % (b['name'], prop, rc, txt[:4000]))
                return None
            return json.load(open(out))

        for b, exe in zip(bins, exes):
            res = execute(b, exe, scale)
            if res is None:
                return 3
            if res.get('errors') and not res.get('violations') and not b.get('san') and '-fsanitize=thread' not in b.get('flags', []):
                # something crashed out of a case or did not repeat, as after a
                # corruption of memory: find which case does it
                log(res['errors'])
                try:
                    sb = dict(b, san=True, name=b['name'] + '-san')
                    again = execute(sb, build(prop, sb, builddir), float(scale) / 5)
                    if again and again.get('violations'):
                        for v in again['violations']:
                            mark_sanitized(v['replay'])
                        res = again
                except (BuildError, NoAnswer) as e:
                    log(str(e)[:2000])
            absorb(res, b['name'])
        if tier == 'thorough' and exes:
            for b in bins:
                if not b.get('fuzz') or total['violations']:
                    continue
                info = run_fuzzer(prop, b, builddir, seed, total, exes[bins.index(b)])
                fuzz_info.append(info)

    known = known_findings(prop)
    reported = set()
    violations = []
    for v in total['violations']:
        for law, rx, text in known:
            if law == v['law'] and rx.search(v['message']):
                reported.add(text)
                break
        else:
            violations.append(v)
    for law, rx, text in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))

    rule = cfg['rule'] + ' Laws: ' + '; '.join('%s: %s' % (x['law'], x['about']) for x in total['laws'])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'exploration'),
        'coverage': {
            'evaluations': total['evaluations'],
            'distinct_nontrivial': total['distinct_nontrivial'],
            'rule': rule,
            'samples': total['samples'][:12],
            'discarded': total['discarded'],
            'per_law': [{k: x[k] for k in ('law', 'harness', 'evaluations', 'discarded', 'nontrivial', 'labels') if k in x} for x in total['laws']],
        },
        'assumptions': cfg.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if fuzz_info:
        ev['coverage']['fuzzing'] = fuzz_info
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write('\n')

    for v in violations:
        dst = os.path.join(replays, os.path.basename(v['replay']))
        if os.path.abspath(v['replay']) != os.path.abspath(dst):
            shutil.copy(v['replay'], dst)
        v['replay'] = dst
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(builddir, ignore_errors=True)
    for v in violations:
        log('%s: law %s: %s' % (prop, v['law'], v['message'][:1500]))
    for v in violations:
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']), flush=True)
    if violations:
        return 1
    if total['errors']:
        log(total['errors'])
        return 3
    print('%s: held on %d cases (%d distinct non-trivial) in %.1f s' % (prop, total['evaluations'], total['distinct_nontrivial'], time.time() - t0))
    return 0


def run_fuzzer(prop, b, builddir, seed, total, exe):
    """Coverage-guided search over the same laws (thorough tier only)."""
    try:
        fexe = build(prop, b, builddir, fuzz=True)
    except (BuildError, NoAnswer) as e:
        return {'harness': b['name'], 'error': str(e)[:500]}
    seconds = int(os.environ.get('VERIF_FUZZ_SECONDS', b.get('fuzz_seconds', 240)))
    corpus = os.path.join(builddir, b['name'] + '-corpus')
    os.makedirs(corpus, exist_ok=True)
    procs = []
    for w in range(8):
        d = os.path.join(builddir, '%s-fuzz%d' % (b['name'], w))
        os.makedirs(d, exist_ok=True)
        rep = os.path.join(d, '%s-%s-fuzz%d.replay' % (prop, b['name'], w))
        env = dict(os.environ, **RUN_ENV)
        env['PBT_FUZZ_OUT'] = rep
        f = open(os.path.join(d, 'log'), 'w')
        procs.append((subprocess.Popen(
            [fexe, '-seed=%d' % (seed * 100 + w + 1), '-max_total_time=%d' % seconds, '-max_len=2048', '-timeout=60',
             '-rss_limit_mb=3500', '-print_final_stats=1', '-reload=1', '-use_value_profile=1', '-artifact_prefix=' + d + '/', corpus],
            stdout=f, stderr=subprocess.STDOUT, env=env, cwd=d, start_new_session=True), d, rep))
    execs = cov = 0
    failures = []
    for p, d, rep in procs:
        try:
            p.wait(seconds + 300)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
        txt = open(os.path.join(d, 'log'), errors='replace').read()
        m = re.search(r'stat::number_of_executed_units:\s*(\d+)', txt)
        execs += int(m.group(1)) if m else 0
        for m in re.finditer(r'cov: (\d+)', txt):
            cov = max(cov, int(m.group(1)))
        if os.path.exists(rep):
            rc, out = sh([exe, 'replay', '--file', rep, '--dir', d], 300, env=dict(os.environ, **RUN_ENV))
            rcs = [sh([exe, 'replay', '--file', rep, '--dir', d], 300, env=dict(os.environ, **RUN_ENV))[0] for _ in range(2)]
            if rc == 1 and rcs == [1, 1]:
                failures.append((rep, out))
        elif re.search(r'ERROR: (Address|Undefined|libFuzzer)|runtime error|Assertion', txt):
            m = re.search(r'(ERROR: .*|.*runtime error.*|.*Assertion.*)', txt)
            if 'out-of-memory' not in txt:
                failures.append((os.path.join(d, 'log'), m.group(1)))
    total['evaluations'] += execs
    for rep, msg in failures[:1]:
        total['violations'].append({'law': 'fuzz', 'replay': rep, 'message': msg[-1500:], 'harness': b['name']})
    return {'harness': b['name'], 'executions': execs, 'coverage_counters': cov, 'corpus': len(os.listdir(corpus)), 'seconds': seconds, 'failures': len(failures)}


if __name__ == '__main__':
    sys.exit(main())

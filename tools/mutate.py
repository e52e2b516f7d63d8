#!/usr/bin/env python3
"""Mutation campaign: small changes of the headers, each run through the checks of
the file on a scratch copy; prints the survivors.
usage: mutate.py [-j N] [--scale S] [--sample N] [--seed K] [--only REGEX] FILE...   (e.g. ureal.hpp)
The changes that no check notices at this scale are run again at full scale."""
import argparse, concurrent.futures as cf, hashlib, os, random, re, shutil, subprocess, sys, tempfile, time
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=4); ap.add_argument('--scale', default='0.1'); ap.add_argument('--sample', type=int, default=0)
ap.add_argument('--seed', type=int, default=1); ap.add_argument('--only', default=''); ap.add_argument('--out', default='/tmp/p/mutants'); ap.add_argument('files', nargs='+')
A = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'ureal.hpp': 'C01 C02 C04 C03 C24 C05 C18 C25 C26', 'ureal2.hpp': 'C09 C10 C11 C24 C03 C18 C05 C12 C20 C26', 'hessgrad.hpp': 'C09 C10 C11 C24 C27 C18 C26',
    'moments.hpp': 'C10 C11', 'checkmoments.hpp': 'C20', 'math.hpp': 'C07 C08 C27', 'io.hpp': 'C14 C15 C26', 'impl.hpp': 'C14 C15 C19',
    'stat.hpp': 'C17', 'ureals.hpp': 'C16', 'distr.hpp': 'C19', 'functions.hpp': 'C21 C22', 'core.hpp': 'C15 C05',
}
OPS = [(r'(?<![+\-*/=<>!&|])\+(?![+=])', ['-']), (r'(?<![\-+*/=<>!&|(,e]) -(?![\->=\d])', [' +']), (r'(?<=\w) \* (?=\w)', [' / ']), (r'(?<=\w) / (?=\w)', [' * ']),
       (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'\*=', ['/=']), (r'/=', ['*=']), (r'(?<![<\-])<(?![<=])(?= )', ['<=', '>']), (r' >(?![>=])(?= )', [' >=', ' <']),
       (r'<=', ['<']), (r'>=', ['>']), (r'==', ['!=']), (r'!=', ['==']), (r'\band\b|&&', ['or']), (r'\bor\b|\|\|', ['and']), (r'\bnot\b ', ['']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'(?<![\w.])\d+(?![\w.])', ['+1', '-1']), (r'\bconst (Real|U\w*|auto) &', [None]),
       (r'\bthis->(\w+)', [None]), (r'\bx\b', ['y']), (r'\by\b', ['x']), (r'\bbegin\b', ['end']), (r'\bfirst\b', ['second']), (r'\bsecond\b', ['first']), (r'\bmin\b', ['max']), (r'\bmax\b', ['min']),
       (r'\bit\b', ['end']), (r'\bdfdx\b', ['dfdy']), (r'\bdfdy\b', ['dfdx']), (r'\bddfdxdx\b', ['ddfdydy', 'ddfdxdy']), (r'\bddfdydy\b', ['ddfdxdx']), (r'\blower_bound\b', ['upper_bound']), (r'\babs\(', ['(']),
       (r'\bReal\(-', ['Real(']), (r'(?<=[(,=] )-(?=\w)', ['']), (r'(?<=\()-(?=\w)', ['']), (r'\bReal\b(?=\()', ['double', 'float'])]

def mutants(name):
    src = subprocess.check_output(['find', '/repo/uncertainties', '-name', name], text=True).split()[0]
    text = open(src).read()
    code = re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|^\s*#[^\n]*|\bassert\([^\n]*', lambda m: re.sub(r'[^\n]', '\0', m.group(0)), text, flags=re.S | re.M)
    out = []
    for rx, reps in OPS:
        for m in re.finditer(rx, code):
            for r in reps:
                if r is None: continue
                if r in ('+1', '-1'):
                    new = str(int(m.group(0)) + int(r))
                    if new == '-1': continue
                else: new = r
                out.append((m.start(), m.end(), new))
    # statements
    for m in re.finditer(r'(?<=\n)[ ]{8,}[^\n\0{}]*;(?=\n)', code):
        if re.search(r'\b(using|return|typedef|const|static|friend|template|template|throw|class|struct|auto)\b', m.group(0)): continue
        out.append((m.start(), m.end(), '    ;'))
    for m in re.finditer(r'\bif \(', code):
        out.append((m.start(), m.end(), 'if (not ('))
    res = []
    for a, b, new in out:
        if new.startswith('if (not ('):
            depth, k = 1, b
            while depth: depth += {'(': 1, ')': -1}.get(code[k], 0); k += 1
            res.append((a, text[:a] + 'if (not (' + text[b:k] + ')' + text[k:]))
        else: res.append((a, text[:a] + new + text[b:]))
    final = []
    for a, t in res:
        line = text.count('\n', 0, a) + 1
        old, newl = text.split('\n')[line - 1].strip(), t.split('\n')[line - 1].strip()
        if A.only and not re.search(A.only, old): continue
        final.append((src, line, old, newl, t))
    return final

def checks(names, repo, d, scale):
    for c in names:
        env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=d + '/b', VERIF_SCALE=scale, PBT_STOP_FIRST='1')
        p = subprocess.run(['nice', '-n', '12', 'python3', d + '/v/check.py', c], env=env, capture_output=True, text=True)
        if p.returncode == 2 or (p.returncode == 1 and 'does not compile' in p.stderr) or 'error:' in p.stderr[:4000] and p.returncode: return 'invalid'
        if p.returncode: return '%s rc=%d' % (c, p.returncode)
    return None

def one(m):
    src, line, old, new, t = m
    d = tempfile.mkdtemp(prefix='mutc'); r = d + '/repo'
    try:
        shutil.copytree('/repo/uncertainties', r + '/uncertainties')
        os.mkdir(d + '/v')
        for x in ('lib', 'props'): shutil.copytree(V + '/' + x, d + '/v/' + x)
        shutil.copy(V + '/check.py', d + '/v/check.py')
        open(r + src[len('/repo'):], 'w').write(t)
        names = CHECKS[os.path.basename(src)].split()
        res = checks(names, r, d, A.scale)
        if res is None: res = checks([n for n in names if n not in ('C26',)], r, d, '1')
        if res is None:
            k = hashlib.sha1(t.encode()).hexdigest()[:10]
            os.makedirs(A.out, exist_ok=True)
            open(A.out + '/' + k + '.diff', 'w').write(subprocess.run(['diff', '-u', '--label', 'a/' + src[6:], '--label', 'b/' + src[6:], src, r + src[len('/repo'):]], capture_output=True, text=True).stdout)
            return 'SURVIVED ' + k
        return res
    except Exception as e: return 'error %r' % e
    finally: shutil.rmtree(d)

ms = [m for f in A.files for m in mutants(f)]
random.Random(A.seed).shuffle(ms)
if A.sample: ms = ms[:A.sample]
print(len(ms), 'mutants', flush=True)
n = {}
with cf.ThreadPoolExecutor(A.j) as ex:
    for m, r in zip(ms, ex.map(one, ms)):
        k = r.split()[0]
        n[k] = n.get(k, 0) + 1
        if k in ('SURVIVED', 'error') or 'rc=3' in r: print(os.path.basename(m[0]), m[1], r, '\n   -', m[2], '\n   +', m[3], flush=True)
print(n)

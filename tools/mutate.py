#!/usr/bin/env python3
"""Mutation campaign: python3-vt tools/mutate.py PROP N [seed] [file-substring]
Works on a scratch copy of /repo (never on /repo itself), mutates one source line at a time in the files of the property, first
runs the driver and, for the mutants the driver does not kill, the proof units.  Prints survivors and proof-only kills."""
import sys, os, re, random, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, N = sys.argv[1], int(sys.argv[2])
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
pat = sys.argv[4] if len(sys.argv) > 4 else ''
W = tempfile.mkdtemp(prefix='mut_%s_' % prop, dir='/tmp/w' if os.path.isdir('/tmp/w') else None)
REPO = os.path.join(W, 'repo')
os.makedirs(REPO)
subprocess.run('git -C /repo archive HEAD src config cmake_modules | tar x -C %s' % REPO, shell=True, check=True)
for d in ('_build',):
    pass
os.environ['IRV_REPO'] = REPO
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
os.chdir(HERE)
import check, props
from irv import front
from concurrent.futures import ThreadPoolExecutor
P = props.PROPS[prop]
D = P['driver']
import json
entry = [json.loads(l) for l in open('properties.jsonl') if json.loads(l)['id'] == prop][0]


def strip_code(s):
    s = re.sub(r'//.*', lambda m: ' ' * len(m.group(0)), s)
    return re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), s, flags=re.S)


OPS = [(r'(?<![<>=!&|+\-*/])<=(?!=)', ['<']), (r'(?<![<>=!&|+\-*/])>=(?!=)', ['>']), (r'==', ['!=']), (r'!=', ['==']),
       (r'(?<= )<(?= )', ['<=']), (r'(?<= )>(?= )', ['>=']),
       (r'(?<= )\+(?= )', ['-']), (r'(?<= )-(?= )', ['+']), (r'(?<= )\*(?= )', ['/', '+']), (r'(?<= )/(?= )', ['*']),
       (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'\+\+', ['--']), (r'&&|\band\b', ['||']), (r'\|\||\bor\b', ['&&']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']),
       (r'\b0\.0f?\b', ['1.0f']), (r'\b1\.0f?\b', ['0.5f']), (r'\bmin\b', ['max']), (r'\bmax\b', ['min']),
       (r'\bif\s*\(', ['if( not ']), (r'\bcontinue\b', ['break']), (r'\bbreak\b', ['']), (r'%', ['/']), (r'!(?=[\w(])', [''])]


def mutants(files):
    res = []
    for f in files:
        path = os.path.join(REPO, f)
        if not os.path.exists(path):
            continue
        src = open(path).read()
        code = strip_code(src)
        start = 0
        for m in re.finditer(r'^.*$', code, re.M):
            ln = m.group(0)
            if re.match(r'\s*(#|namespace|template|using|typedef|class|struct|static_assert|extern)', ln) or not ln.strip():
                continue
            if re.search(r'assert\s*\(', ln) or 'status(' in ln or 'std::cout' in ln or 'throw' in ln:
                continue
            for rx, reps in OPS:
                for k in re.finditer(rx, ln):
                    # strings
                    if ln[:k.start()].count('"') % 2:
                        continue
                    for r in reps:
                        a, b = m.start() + k.start(), m.start() + k.end()
                        rep = r
                        if rx.startswith(r'\bif'):
                            depth, j = 1, b
                            while j < len(code) and depth:
                                depth += (code[j] == '(') - (code[j] == ')')
                                j += 1
                            new = src[:a] + 'if( not (' + src[b:j] + ')' + src[j:]
                        else:
                            new = src[:a] + rep + src[b:]
                        res.append((f, src.count('\n', 0, a) + 1, '%s -> %s' % (k.group(0), rep), new))
            # delete a statement
            if re.match(r'^\s+[\w:>\-.\[\]() ,+*/&<]+;\s*$', ln) and (('=' in ln) or '(' in ln or '++' in ln) and not re.match(r'^\s*(return|break|continue|const|std::\w+\s+\w+\s*=|auto)', ln):
                a, b = m.start(), m.end()
                res.append((f, src.count('\n', 0, a) + 1, 'delete', src[:a] + ' ;' + src[b:]))
            elif re.match(r'^\s+[\w>\-.\[\]() +\-]+\s*[-+*]?=[^=].*;\s*$', ln) and not re.match(r'^\s*(const|std::|auto|unsigned|int|bool|float|double|size_t|[A-Z]\w+ (const )?\w+ =)', ln):
                a, b = m.start(), m.end()
                res.append((f, src.count('\n', 0, a) + 1, 'delete', src[:a] + ' ;' + src[b:]))
    return res


INC = [x for x in front.BASE if x.startswith(('-I', '-D'))] + ['-I' + os.path.join(HERE, 'drivers')]
SRCS = [(os.path.join(HERE, 'drivers', D['src']), ['-O1'])] + [(os.path.join(front.SRC, s if isinstance(s, str) else s[0]), ['-O1'] + ([] if isinstance(s, str) else list(s[1]))) for s in D['sources']]


def comp(s, fl, o, inc=INC):
    return subprocess.run(check.CXX + inc + fl + list(D.get('flags', [])) + ['-c', s, '-o', o], capture_output=True, text=True).returncode == 0


def base():
    with ThreadPoolExecutor(8) as p:
        r = list(p.map(lambda a: comp(a[1][0], a[1][1], os.path.join(W, '%d.o' % a[0])), enumerate(SRCS)))
    assert all(r), 'base does not compile'
    return [os.path.join(W, '%d.o' % i) for i in range(len(SRCS))]


def try_driver(idx, mu, objs, secs):
    """own overlay directory per mutant"""
    f, line, what, new = mu
    d = os.path.join(W, 'm%d' % idx)
    R = os.path.join(d, 'repo')
    os.makedirs(d)
    subprocess.run(['cp', '-rl', REPO, R], check=True)
    p = os.path.join(R, f)
    os.unlink(p)
    open(p, 'w').write(new)
    inc = [x.replace(REPO, R) for x in INC]
    mine = list(objs)
    todo = []
    for i, (s, fl) in enumerate(SRCS):
        s2 = s.replace(REPO, R)
        if f.endswith('.cpp'):
            need = s2 == p
        else:
            need = True
        if need:
            todo.append((i, s2, fl))
    for i, s2, fl in todo:
        o = os.path.join(d, '%d.o' % i)
        if not comp(s2, fl, o, inc):
            return 'invalid', ''
        mine[i] = o
    if not todo:
        return 'notdriven', ''
    exe = os.path.join(d, 'driver')
    if subprocess.run(check.CXX + mine + ['-o', exe, '-lpthread'] + list(D.get('libs', [])), capture_output=True).returncode:
        return 'invalid', ''
    env = dict(os.environ)
    env['HINT'] = ''
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1'
    try:
        r = subprocess.run(['prlimit', '--as=unlimited', '--rss=2000000000', exe, '1', str(secs)], capture_output=True, text=True, env=env, timeout=secs * 3 + 20, errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    if r.returncode or 'FAIL' in r.stdout:
        return 'killed', [l for l in r.stdout.split('\n') if l.startswith('FAIL')][:1]
    return 'survived', ''


def proof(idx, mu):
    R = os.path.join(W, 'm%d' % idx, 'repo')
    r = subprocess.run(['python3-vt', '-c', '''
import sys,os
sys.argv=['x']
sys.path.insert(0,%r); os.chdir(%r)
import check,props,importlib
P=props.PROPS[%r]
fns=[]
for u in P['units']:
    m=importlib.import_module('units.'+u[0])
    fns+=m.units(*u[1:])
res=check.run_units(fns,3,240,800)
bad=[]
und=[]
for k,x in res.items():
    if 'error' in x:
        (bad if x.get('bmc') else und).append(k+': '+x['error'][:80])
        continue
    c=[o for o in x['obligs'] if o[2]=='cex']
    if c: bad.append(k+': '+c[0][0])
    elif [o for o in x['obligs'] if o[2]!='proved'] or x['vacuous'] or not x['obligs']: und.append(k)
print('BAD',bad)
print('UND',und)
''' % (HERE, HERE, prop)], capture_output=True, text=True, env=dict(os.environ, IRV_REPO=R))
    return r.stdout[-1500:] + r.stderr[-300:]


if __name__ == '__main__':
    ms = mutants([f for f in entry['anchors']['files'] if pat in f])
    random.Random(seed).shuffle(ms)
    print(prop, len(ms), 'mutants, taking', N, flush=True)
    ms = ms[:N]
    objs = base()
    with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '7'))) as p:
        rs = list(p.map(lambda a: try_driver(a[0], a[1], objs, float(os.environ.get('MUT_SECS', '8'))), enumerate(ms)))
    cnt = {}
    for r in rs:
        cnt[r[0]] = cnt.get(r[0], 0) + 1
    print(cnt, flush=True)
    for m, r in zip(ms, rs):
        if r[0] in ('invalid', 'timeout') and os.environ.get('MUT_V'):
            print(r[0], '%s:%d [%s] %s' % (m[0], m[1], m[2], m[3].split('\n')[m[1] - 1].strip()[:100]))
    sv = [(i, m, r) for i, (m, r) in enumerate(zip(ms, rs)) if r[0] in ('survived', 'notdriven')]
    for i, m, r in sv:
        f, line, what, new = m
        print('SURV %s:%d [%s] %s  %s' % (f, line, what, new.split('\n')[line - 1].strip()[:100], r[0] if r[0] != 'survived' else ''), flush=True)
    if not os.environ.get('MUT_NOPROOF'):
        with ThreadPoolExecutor(3) as p:
            for (i, m, r), o in zip(sv, p.map(lambda a: proof(a[0], a[1]), sv)):
                f, line, what, new = m
                print('PROOF %s:%d [%s] %s' % (f, line, what, ' '.join(o.split('\n'))[:300]), flush=True)
    shutil.rmtree(W)

"""Front end: compiles the real sources of /repo to LLVM IR on every run and loads it."""
import atexit
import os
import re
import shutil
import subprocess
import tempfile
import time
from . import irparse

REPO = os.environ.get('IRV_REPO', '/repo')
SRC = REPO + '/src'
BASE = ['-std=c++14', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-w', '-g0', '-S', '-emit-llvm',
        '-ffp-contract=off',
        '-I' + SRC, '-I' + REPO + '/3rd/ffts/include', '-I' + REPO + '/3rd/kissfft', '-DBUILD_FFTS',
        '-DVISR_MAJOR_VERSION=0', '-DVISR_MINOR_VERSION=13', '-DVISR_PATCH_VERSION=0',
        '-DVISR_PLATFORM_NAME_linux_x86_64', '-DVISR_SYSTEM_NAME_Linux', '-DVISR_SYSTEM_PROCESSOR_x86_64',
        '-DVISR_PML_USE_SNDFILE_LIBRARY=1']
PASSES = 'function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify)'
_work = [None]
COMPILED = []


def workdir():
    if _work[0] is None:
        d = tempfile.mkdtemp(prefix='irv-')
        _work[0] = d
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _work[0]


class CompileError(Exception):
    pass


def ir_text(src, flags=(), key=None):
    """IR text of a source file (relative to /repo/src, or absolute)"""
    path = src if src.startswith('/') else os.path.join(SRC, src)
    d = workdir()
    key = key or re.sub(r'[^A-Za-z0-9]', '_', src + '_' + '_'.join(flags))
    o0 = os.path.join(d, key + '.0.ll')
    o1 = os.path.join(d, key + '.ll')
    r = subprocess.run(['clang++-18'] + BASE + list(flags) + [path, '-o', o0], capture_output=True, text=True)
    if r.returncode:
        raise CompileError('%s: %s' % (src, r.stderr[-2000:]))
    r = subprocess.run(['opt-18', '-S', '-passes=' + PASSES, o0, '-o', o1], capture_output=True, text=True)
    if r.returncode:
        raise CompileError('%s: %s' % (src, r.stderr[-2000:]))
    COMPILED.append(src + (' ' + ' '.join(flags) if flags else ''))
    with open(o1) as f:
        return f.read()


def demangle(names):
    names = list(names)
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


_mods = {}


def load(src, flags=()):
    k = (src, tuple(flags))
    if k not in _mods:
        m = irparse.parse_module(ir_text(src, flags))
        m.src = src
        m.dem = demangle(m.funcs.keys())
        _mods[k] = m
    return _mods[k]


def load_many(specs):
    """compile several translation units in parallel"""
    from concurrent.futures import ThreadPoolExecutor
    todo = [s for s in specs if (s if isinstance(s, str) else s[0], tuple(() if isinstance(s, str) else s[1])) not in _mods]
    with ThreadPoolExecutor(8) as p:
        list(p.map(lambda s: _compile_only(s), todo))
    return [load(s) if isinstance(s, str) else load(s[0], s[1]) for s in specs]


def _compile_only(s):
    src, flags = (s, ()) if isinstance(s, str) else (s[0], tuple(s[1]))
    t = ir_text(src, flags)
    m = irparse.parse_module(t)
    m.src = src
    m.dem = demangle(m.funcs.keys())
    _mods[(src, flags)] = m


# ---------------------------------------------------------------- record layouts

_lay = {}


def layouts(src, flags=()):
    """class name -> {'field': (offset, type-text)}, 'size' from clang's record layout dump"""
    k = (src, tuple(flags))
    if k in _lay:
        return _lay[k]
    path = src if src.startswith('/') else os.path.join(SRC, src)
    fl = list(BASE)
    r = subprocess.run(['clang++-18'] + fl + list(flags) + ['-Xclang', '-fdump-record-layouts', path, '-o', '/dev/null'],
                       capture_output=True, text=True)
    if r.returncode:
        raise CompileError('%s: %s' % (src, r.stderr[-2000:]))
    out = {}
    for blk in r.stdout.split('*** Dumping AST Record Layout')[1:]:
        lines = blk.strip('\n').split('\n')
        head = lines[0].split('|', 1)
        if len(head) < 2:
            continue
        name = re.sub(r'^(class|struct|union)\s+', '', head[1].strip())
        fields = {}
        for ln in lines[1:]:
            if '|' not in ln:
                continue
            offs, rest = ln.split('|', 1)
            if rest.strip().startswith('['):
                mm = re.search(r'sizeof=(\d+)', rest)
                if mm:
                    fields['#size'] = int(mm.group(1))
                continue
            ind = len(rest) - len(rest.lstrip())
            off = offs.strip().split(':')[0]
            if not off.isdigit():
                continue
            if ind == 3:
                txt = rest.strip()
                if 'base)' in txt or txt.endswith('vtable pointer)'):
                    if 'base)' in txt:
                        fields.setdefault('#bases', []).append((re.sub(r'^(class|struct)\s+', '', txt.replace('(primary base)', '').replace('(base)', '').strip()), int(off)))
                    continue
                nm = txt.split(' ')[-1]
                fields[nm] = (int(off), ' '.join(txt.split(' ')[:-1]))
        out.setdefault(name, fields)
    _lay[k] = out
    return out

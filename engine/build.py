"""Compile a harness against /repo's current headers and load its IR."""
import os
import subprocess
import hashlib
import tempfile
import sys
from .ir import Module

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CONFIGOR_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build')


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def exporter():
    src = os.path.join(VERIF, 'tools', 'irexport.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    exe = os.path.join(BUILD, 'irexport-' + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        r = sh(['g++', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
                '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
                '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        if r.returncode:
            raise RuntimeError('irexport does not build:\n' + r.stdout)
        os.rename(tmp, exe)
    return exe


class CompileError(Exception):
    pass


def load(src, defs=(), std='c++11'):
    """compile /verif/harness/<src> to IR (no optimisation but mem2reg; with lifetime markers) and load it"""
    path = os.path.join(VERIF, 'harness', src)
    exe = exporter()
    with tempfile.TemporaryDirectory(prefix='cfgsa') as d:
        bc, bc2, js = d + '/a.bc', d + '/b.bc', d + '/a.json'
        r = sh(['clang++-18', '-std=' + std, '-I' + REPO + '/include', '-g', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing',
                '-D__always_inline__=__unused__', '-emit-llvm', '-c', path, '-o', bc] + ['-D' + x for x in defs])
        if r.returncode:
            raise CompileError(r.stdout)
        r = sh(['opt-18', '-passes=mem2reg', bc, '-o', bc2])
        if r.returncode:
            raise RuntimeError(r.stdout)
        r = sh([exe, bc2, js])
        if r.returncode:
            raise RuntimeError(r.stdout)
        return Module(js)


def witness(src, std='c++11'):
    """type-level witnesses: compile only; every failed assertion or error is returned as (message, line)"""
    path = os.path.join(VERIF, 'harness', src)
    r = sh(['clang++-18', '-std=' + std, '-I' + REPO + '/include', '-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics', path])
    out, at = [], None
    import re
    for l in r.stdout.splitlines():
        m = re.match(r'(.*?):(\d+):\d+: (?:fatal )?error: (.*)', l)
        if m:
            out.append((m.group(3).replace('static assertion failed due to requirement', 'assertion').replace('static assertion failed: ', ''), m.group(2) if m.group(1).endswith(src) else '%s:%s' % (os.path.basename(m.group(1)), m.group(2))))
    if r.returncode and not out:
        raise CompileError(r.stdout)
    return out


def programs(src, std='c++11'):
    """statement witnesses: {line: [errors]} for the lines of harness/<src> that an error is reported at or instantiated from"""
    import re
    path = os.path.join(VERIF, 'harness', src)
    r = sh(['clang++-18', '-std=' + std, '-I' + REPO + '/include', '-fsyntax-only', '-w', '-ferror-limit=0', '-fno-caret-diagnostics', '-ftemplate-backtrace-limit=0',
            '-fmacro-backtrace-limit=0', path])
    hit, err, where = {}, None, None
    for l in r.stdout.splitlines():
        m = re.match(r'(.*?):(\d+):\d+: (fatal error|error|note): (.*)', l)
        if not m:
            continue
        if m.group(3) != 'note':
            err = '%s (%s:%s)' % (m.group(4), os.path.basename(m.group(1)), m.group(2))
        elif not m.group(4).startswith(('in instantiation', 'in defaulted', 'expanded from', 'in implicit', 'requested here')):
            continue
        if err and m.group(1) == path:
            hit.setdefault(int(m.group(2)), []).append(err)
    if r.returncode and not hit:
        raise CompileError(r.stdout)
    return hit

"""Compiles contracts against /repo's current headers to LLVM IR."""
import hashlib
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
REPO = os.environ.get('VP_REPO', '/repo')
CLANG = 'clang++-18'


def base_flags(cfg):
    import table
    return table.CONFIGS[cfg]['flags'] + ['-O0', '-w', '-fno-discard-value-names', '-I' + os.path.join(REPO, 'include'), '-I' + SPEC]


def run(cmd, timeout=300, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return -1, '', 'timeout'


def pch(cfg, work):
    out = os.path.join(work, cfg + '.pch')
    rc, _, err = run([CLANG] + base_flags(cfg) + ['-x', 'c++-header', os.path.join(SPEC, 'all.h'), '-o', out])
    return (out if rc == 0 else None), err


def tu_text(items):
    """items: [(kit, [ops])]"""
    out = ['#include "all.h"']
    for k, ops in items:
        out.append(k['decl'])
        out += ['VP_ENTRY(%s, %s)' % (op, k['name']) for op in ops]
    return '\n'.join(out) + '\n'


def compile_ll(cfg, items, work, pchfile, syntax_only=False, defs=()):
    text = tu_text(items)
    h = hashlib.sha1((cfg + text + repr(defs)).encode()).hexdigest()[:16]
    src = os.path.join(work, '%s_%s.cpp' % (cfg, h))
    with open(src, 'w') as f:
        f.write(text)
    out = src[:-4] + '.ll'
    cmd = [CLANG] + base_flags(cfg) + list(defs)
    if pchfile and not defs:
        cmd += ['-include-pch', pchfile]
    cmd += ['-fsyntax-only', src] if syntax_only else ['-S', '-emit-llvm', src, '-o', out]
    rc, _, err = run(cmd)
    os.unlink(src)
    return (out if rc == 0 else None), err

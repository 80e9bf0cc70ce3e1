"""C08: which (flag type, constant) pairs does the compiler accept as sentinel?  Expected: exactly the representable ones."""
import os
import re
import build
import table

RANGES = {
    'bool': (0, 1), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'char': (-128, 127), 'short': (-32768, 32767), 'unsigned short': (0, 65535),
    'int': (-2**31, 2**31 - 1), 'unsigned': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1),
    'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1), 'char16_t': (0, 65535), 'char32_t': (0, 2**32 - 1), 'wchar_t': (-2**31, 2**31 - 1),
}


def ranges(m32):
    r = dict(RANGES)
    if m32:
        r['long'] = r['int']; r['unsigned long'] = r['unsigned']
    return r


def lit(S, v):
    if v == -2**63:
        return '(%s)(-9223372036854775807ll - 1)' % S
    return '(%s)%s' % (S, ('%dull' % v) if v >= 2**63 else '%dll' % v)


FORMS = {
    'optional': 'tiny::optional<%(T)s, %(V)s> const & o',
    'via_type': 'tiny::optional_sentinel_via_type<%(T)s, std::integral_constant<%(S)s, %(V)s>> const & o',
    'member': 'tiny::optional<Hold<%(T)s>, &Hold<%(T)s>::m, %(V)s> const & o',
    'member_via_type': 'tiny::optional_sentinel_via_type<Hold<%(T)s>, std::integral_constant<%(S)s, %(V)s>, &Hold<%(T)s>::m> const & o',
    'aip': 'tiny::optional_aip<%(T)s, %(V)s> const & o',
    'const': 'tiny::optional<%(T)s const, %(V)s> const & o',
}


def cases(R, full):
    for T, (lo, hi) in R.items():
        for S, (slo, shi) in R.items():
            cand = {lo, hi, lo - 1, hi + 1, 0, 1, -1, 2, 42, slo, shi, slo + 1, shi - 1, lo + 1, hi - 1, 127, 128, 255, 256, -128, -129, 2**31, 2**31 - 1, 2**32, -2**31, -2**31 - 1, 2**63, 2**63 - 1}
            for v in sorted(cand):
                if slo <= v <= shi and not ('bool' in (T, S) and T != S and lo <= v <= hi): # bool and integers do not mix
                    yield T, S, v, lo <= v <= hi


def compile_lines(cfg, form, cs, work):
    """set of indices that the compiler rejects, or None if the output cannot be attributed"""
    lines = ['#include <tiny/optional.h>', '#include <type_traits>', 'template <class T> struct Hold { char c; T m; };']
    base = len(lines) + 1
    for i, (T, S, v, ok) in enumerate(cs):
        lines.append('bool f%d(%s) { return o.has_value(); }' % (i, FORMS[form] % dict(T=T, S=S, V=lit(S, v))))
    src = os.path.join(work, 'accept_%s_%s.cpp' % (cfg, form))
    with open(src, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    rc, out, err = build.run([build.CLANG] + build.base_flags(cfg) + ['-fsyntax-only', '-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-fno-caret-diagnostics', src], timeout=600)
    bad, cur, attributed = set(), None, True
    if rc == 0:
        return bad, ''
    pend = False
    for l in err.splitlines():
        m = re.match(r'(.*?):(\d+):\d+: (fatal error|error|note|warning):', l)
        if not m:
            continue
        here = os.path.basename(m.group(1)) == os.path.basename(src)
        if m.group(3) in ('error', 'fatal error'):
            if pend:
                attributed = False
            pend = True
            if here:
                bad.add(int(m.group(2)) - base); pend = False
        elif here and m.group(3) == 'note' and 'requested here' in l:
            bad.add(int(m.group(2)) - base); pend = False
    return (bad if rc > 0 and bad else None), err


def run(chk):
    cov = {}
    forms = list(FORMS) if chk.tier != 'quick' else list(FORMS)
    configs = ['x20'] if chk.tier == 'quick' else ['x20', 'x17n', 'm32', 'noub17d']
    from concurrent.futures import ThreadPoolExecutor
    tasks = []
    for cfg in configs:
        R = ranges(table.CONFIGS[cfg].get('m32'))
        cs = list(cases(R, chk.tier != 'quick'))
        # the internal contract's counterexamples become acceptance cases
        for form in forms:
            if form.startswith('member') and table.CONFIGS[cfg].get('nomem'):
                continue
            for part in range(0, len(cs), 400):
                tasks.append((cfg, form, cs[part:part + 400]))
    cex = []
    for r in chk.extra.get('internal', []):
        m = re.match(r'in_range_(\d+)_(\d+)', r['op'])
        T, S = table.INTS[int(m.group(1))], table.INTS[int(m.group(2))]
        R = ranges(table.CONFIGS[r['cfg']].get('m32'))
        for f in r['hits']:
            for tag, bits, v in f['tape']:
                if tag == 'v':
                    if R[S][0] < 0 and v >> (bits - 1):
                        v -= 1 << bits
                    cex.append((r, f, T, S, v, R[T][0] <= v <= R[T][1]))
    for i, (r, f, T, S, v, ok) in enumerate(cex[:40]):
        for form in forms:
            tasks.append((r['cfg'], form, [(T, S, v, ok)]))
    n = 0
    os.makedirs(chk.work, exist_ok=True)

    def one(ix):
        i, (cfg, form, cs) = ix
        d = os.path.join(chk.work, 'acc%d' % i)
        os.makedirs(d)
        return cfg, form, cs, compile_lines(cfg, form, cs, d)
    undecided = []
    with ThreadPoolExecutor(8) as ex:
        for cfg, form, cs, (bad, err) in ex.map(one, enumerate(tasks)):
            if bad is None:
                undecided.append('%s %s' % (cfg, form))
                continue
            for i, (T, S, v, ok) in enumerate(cs):
                n += 1
                if ok == (i in bad):
                    # confirm on its own
                    d = os.path.join(chk.work, 'conf%d' % n)
                    os.makedirs(d)
                    b1, e1 = compile_lines(cfg, form, [(T, S, v, ok)], d)
                    if ok == (e1 == ''):
                        continue
                    if len(chk.violations) > 30:
                        continue
                    what = FORMS[form] % dict(T=T, S=S, V=lit(S, v))
                    chk.violations.append(dict(label='post: %s sentinel constant is %s: %s' % ('a representable' if ok else 'an unrepresentable', 'rejected' if ok else 'accepted', what),
                                               kit=form, op='accept', cfg=cfg, stack=[], tape=[], native='#include <tiny/optional.h>\nbool f(%s) { return o.has_value(); }\ncompiled with %s' % (what, ' '.join(build.base_flags(cfg))), replayed=True))
    # an internal contract failure that no acceptance case confirms is not a violation: the function may have changed its role
    if chk.extra.get('internal') and not chk.violations:
        chk.notes.append('the internal range function does not satisfy its contract, but every constant is accepted exactly when representable on %d cases' % n)
    if undecided:
        chk.notes.append('acceptance not decided (unattributable compiler output): ' + ', '.join(sorted(set(undecided))))
    chk.extra['coverage'] = dict(acceptance_cases=n, acceptance_forms=forms, acceptance_label='bounded: boundary constants of every pair of integer types, decided by the compiler')

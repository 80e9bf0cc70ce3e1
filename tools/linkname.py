"""C22: the relational contract between two translation units.

    link(a, b) and uses(a, O) and uses(b, O)  ==>  config(a) == config(b)

The linker identifies functions and objects by their symbols, so the contract is discharged by two kinds of obligations over
the IR of the same uses of the library, compiled once per configuration (macros, library version):

  post: for every public optional type O, the symbol of a function that takes an O differs between each two configurations
  inv:  a symbol that nevertheless is defined in two configurations (user code, std instantiations, internals) has the same
        definition in both (checked for symbols of and over entities of namespace tiny), and a class of the library that has one name in both has one layout

The other library version is the current header with the number in its `#define TINY_OPTIONAL_VERSION` line increased, which
is the only textual change made to the extracted code."""
import itertools
import os
import re
import shutil
import build
import driver

TYPES = [
    ('bool', 'tiny::optional<bool>'), ('float', 'tiny::optional<float>'), ('double', 'tiny::optional<double>'), ('ptr', 'tiny::optional<int *>'), ('fptr', 'tiny::optional<void (*)(int)>'),
    ('int', 'tiny::optional<int>'), ('cint', 'tiny::optional<int const>'), ('cls', 'tiny::optional<Cls>'), ('sent', 'tiny::optional<int, 42>'), ('enm', 'tiny::optional<Enm, Enm::none>'),
    ('memsent', 'tiny::optional<Hold, &Hold::i, 5>'), ('memvia', 'tiny::optional_sentinel_via_type<Hold, std::integral_constant<int, 5>, &Hold::i>'),
    ('via', 'tiny::optional_sentinel_via_type<int, std::integral_constant<int, 7>>'), ('aip', 'tiny::optional_aip<unsigned>'), ('aips', 'tiny::optional_aip<int, -1>'),
    ('aipd', 'tiny::optional_aip<double>'), ('inp', 'tiny::optional_inplace<Cls, ClsManip>'), ('custom', 'tiny::optional<Cust>'), ('custommem', 'tiny::optional<HoldC, &HoldC::c>'),
    ('memptr', 'tiny::optional<Hold, &Hold::p>'), ('membool', 'tiny::optional<Hold, &Hold::b>'), ('memdbl', 'tiny::optional<Hold, &Hold::d>'), ('nested', 'tiny::optional<tiny::optional<bool>>'),
    ('nestsent', 'tiny::optional<tiny::optional<int, 42>>'),
]
NEEDS_BIT = {'aipd'}                                     # do not exist without the unused-bit trick
NEEDS_BIT_IF_MEM = {'memptr', 'membool', 'memdbl'}       # nor these, if the member trick is on

PRE = r'''
#include <tiny/optional_flag_manipulator_fwd.h>
#include <new>
#include <type_traits>
#include <functional>
struct Cust { int v; };
template <> struct tiny::optional_flag_manipulator<Cust>
{
  static bool is_empty(Cust const & c) noexcept { return c.v == -9; }
  static void init_empty_flag(Cust & c) noexcept { ::new (&c) Cust{-9}; }
  static void invalidate_empty_flag(Cust & c) noexcept { c.v = 0; }
};
#include <tiny/optional.h>
struct Cls { int v; Cls(int i) : v(i) { } Cls(Cls const & o) : v(o.v) { } Cls & operator=(Cls const & o) { v = o.v; return *this; } ~Cls() { v = 0; } };
struct ClsManip
{
  static bool is_empty(Cls const & c) noexcept { return c.v == -9; }
  static void init_empty_flag(Cls & c) noexcept { ::new (&c) Cls(-9); }
  static void invalidate_empty_flag(Cls & c) noexcept { c.~Cls(); }
};
enum class Enm { none, one };
struct Hold { int i; int * p; bool b; double d; };
struct HoldC { Cust c; };
template <class O> void vp_use(O & a, O & b)
{
  using T = typename O::value_type;
  O c(a), d(static_cast<O &&>(b)), e, f(std::nullopt);
  e.has_value(); e.reset(); *a; a.operator->(); a.value(); a.emplace(static_cast<T const &>(*b)); (void)(bool)a;
  O const & ca = a; *ca; ca.value(); ca.value_or(*b);
  if constexpr (!std::is_const_v<T>) { c = a; d = static_cast<O &&>(b); c = std::nullopt; c = *a; c.swap(d); swap(c, d); }
  (void)(a == std::nullopt);
  O g(*a), h(std::in_place, *a);
}
'''
USE = 'void vp_link_%(n)s(%(o)s const &);\nvoid vp_def_%(n)s(%(o)s & a, %(o)s & b) { vp_use(a, b); vp_link_%(n)s(a); }\n'

MACROS = {'bit,mem': [], 'noBit,mem': ['-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS'], 'bit,noMem': ['-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER'],
          'noBit,noMem': ['-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS']}
DIALECTS = {'C++17': ['-std=c++17'], 'C++20': ['-std=c++20'], 'C++20 NDEBUG': ['-std=c++20', '-DNDEBUG'], 'C++17 32 bit': ['-m32', '-std=c++17']}


def types_for(macro):
    nobit, nomem = 'noBit' in macro, 'noMem' in macro
    return [(n, o) for n, o in TYPES if not (nobit and (n in NEEDS_BIT or (n in NEEDS_BIT_IF_MEM and not nomem)))]


def flags(dialect, macro, inc):
    return DIALECTS[dialect] + MACROS[macro] + ['-O0', '-w', '-fno-discard-value-names', '-I' + inc]


def compile_unit(work, dialect, macro, inc, tag):
    """-> (parsed unit, compiler output, types whose uses do not compile)"""
    src = os.path.join(work, 'link_%s.cpp' % tag)
    out = src[:-4] + '.ll'

    def cc(types, mode):
        with open(src, 'w') as f:
            f.write(PRE + ''.join(USE % dict(n=n, o=o) for n, o in types))
        return build.run([build.CLANG] + flags(dialect, macro, inc) + mode + [src, '-o', out])
    types, bad = types_for(macro), []
    rc, _, err = cc(types, ['-S', '-emit-llvm'])
    if rc:      # that everything compiles is not this property
        bad = [t for t in types if cc([t], ['-fsyntax-only'])[0]]
        types = [t for t in types if t not in bad]
        if not types or cc(types, ['-S', '-emit-llvm'])[0]:
            return None, err, bad
    with open(out) as f:
        text = f.read()
    os.unlink(out)
    return parse(text), err, bad


def parse(text):
    """(symbol per vp_link_ function, definition per symbol, layout per class)"""
    link, defs, types = {}, {}, {}
    for m in re.finditer(r'^declare [^@\n]*@([\w$.]+|"[^"]+")\(', text, re.M):
        n = re.match(r'_Z(\d+)(vp_link_\w+)', m.group(1))
        if n:
            link[n.group(2)[:int(n.group(1))][len('vp_link_'):]] = m.group(1)
    for m in re.finditer(r'^define ([^@\n]*)@([\w$.]+|"[^"]+")(\(.*?\n\}\n)', text, re.M | re.S):
        if re.search(r'\b(internal|private)\b', m.group(1)):
            continue
        body = re.sub(r'#\d+', lambda x: '', m.group(3))
        body = re.sub(r', ![\w.]+ !\d+|!\d+', '', body)
        body = re.sub(r'(%"?(?:class|struct|union)\.[^\s",]*?)\.\d+\b', r'\1', body)      # clang numbers types of equal names per unit
        body = re.sub(r'@(\.str|__PRETTY_FUNCTION__|switch\.table)[\w.]*', r'@\1', body)
        defs[m.group(2)] = m.group(1) + body
    for m in re.finditer(r'^@([\w$.]+|"[^"]+") = (?!internal|private|external)(.*)$', text, re.M):
        defs[m.group(1)] = re.sub(r', comdat.*', '', re.sub(r'@(\.str|__PRETTY_FUNCTION__)[\w.]*', r'@\1', m.group(2)))
    for m in re.finditer(r'^(%(?:"[^"]+"|[\w.$:]+)) = type (.*)$', text, re.M):
        types[m.group(1)] = m.group(2)
    return link, defs, types


def native_link(work, dialect, a, b, inc_a, inc_b, n, o):
    """does a program link in which one unit defines and the other calls a function of this type?"""
    d = os.path.join(work, 'natlink')
    shutil.rmtree(d, True); os.makedirs(d)
    objs = []
    for i, (macro, inc, text) in enumerate(((a, inc_a, 'void vp_take(%s const &) { }\n' % o), (b, inc_b, 'void vp_take(%s const &);\nint main() { static char m[256] __attribute__((aligned(64))); vp_take(*(%s *)m); }\n' % (o, o)))):
        src = os.path.join(d, 'u%d.cpp' % i)
        with open(src, 'w') as f:
            f.write(PRE + text)
        rc, _, err = build.run([build.CLANG] + flags(dialect, macro, inc) + ['-c', src, '-o', src + '.o'])
        if rc:
            return False, err
        objs.append(src + '.o')
    rc, _, err = build.run([build.CLANG] + [f for f in DIALECTS[dialect] if f == '-m32'] + objs + ['-o', os.path.join(d, 'exe')])
    if rc == 0:
        rc2, out, err2 = build.run([os.path.join(d, 'exe')], timeout=10)
        return True, 'units compiled with [%s] and [%s]: the program links silently and runs (exit %d)' % (a, b, rc2)
    return False, 'link error, as required:\n' + err[-1500:]


def demangled(names):
    return driver.demangle(list(names))


def run(chk):
    work = chk.work
    os.makedirs(work, exist_ok=True)
    inc = os.path.join(build.REPO, 'include')
    dialects = list(DIALECTS)
    # the other library version
    inc2 = os.path.join(work, 'incv'); shutil.copytree(inc, inc2)
    h = os.path.join(inc2, 'tiny', 'optional.h')
    with open(h) as f:
        text = f.read()
    new, nver = re.subn(r'(?m)^(\s*#\s*define\s+TINY_OPTIONAL_VERSION\s+)(\d+)', lambda m: m.group(1) + str(int(m.group(2)) + 1), text)
    with open(h, 'w') as f:
        f.write(new)
    if not nver:
        chk.notes.append('no "#define TINY_OPTIONAL_VERSION <number>" in the header; the obligations about library versions were not generated')
    versions = ['this version'] + (['next version'] if nver else [])
    from concurrent.futures import ThreadPoolExecutor
    keys = [(d, m, v) for d in dialects for m in MACROS for v in versions]
    with ThreadPoolExecutor(driver.JOBS) as ex:
        units = dict(zip(keys, ex.map(lambda k: compile_unit(work, k[0], k[1], inc if k[2] == 'this version' else inc2, '%d' % keys.index(k)), keys)))
    nobl = nname = ninv = 0
    for k, (u, err, bad) in units.items():
        for n, o in bad:
            chk.notes.append('not decided, does not compile: %s (%s): %s' % (o, ', '.join(k), driver.compile_error(err)))
        if u is None:
            chk.violations.append(dict(label='COMPILE: a use that the property promises does not compile', kit=k[1], op='link', cfg=k[0], stack=[], tape=[], native='compiler output:\n' + err[-4000:], replayed=True))
    seen = set()
    for d in dialects:
        for (ma, va), (mb, vb) in itertools.combinations([(m, v) for m in MACROS for v in versions], 2):
            ua, ub = units[(d, ma, va)][0], units[(d, mb, vb)][0]
            if ua is None or ub is None:
                continue
            ca, cb = '%s, %s' % (ma, va), '%s, %s' % (mb, vb)
            for n in ua[0]:
                if n not in ub[0]:
                    continue
                nobl += 1; nname += 1
                if ua[0][n] == ub[0][n]:
                    lab = 'post: two configurations give %s the same linker name' % dict(TYPES)[n]
                    key = (n, ma, mb, va != vb)
                    if key in seen or len(chk.violations) > 40:
                        continue
                    seen.add(key)
                    rep, nat = native_link(work, d, ma, mb, inc if va == versions[0] else inc2, inc if vb == versions[0] else inc2, n, dict(TYPES)[n])
                    chk.violations.append(dict(label=lab, kit=n, op='link_name', cfg=d, stack=[], tape=[], native='configurations: %s | %s\nsymbol: %s\n%s' % (ca, cb, ua[0][n], nat), replayed=rep))
            for s in sorted(set(ua[1]) & set(ub[1])):
                if '4tiny' not in s:
                    continue
                nobl += 1; ninv += 1
                if ua[1][s] != ub[1][s]:
                    if s in seen or len(chk.violations) > 40:
                        continue
                    seen.add(s)
                    dm = demangled([s])[s]
                    chk.violations.append(dict(label='inv: one linker name with two definitions: %s' % dm, kit=s[:60], op='link_def', cfg=d, stack=[], tape=[], replayed=True,
                                               native='configurations: %s | %s\nsymbol: %s\n--- first\n%s\n--- second\n%s' % (ca, cb, s, ua[1][s][:2500], ub[1][s][:2500])))
            for t in set(ua[2]) & set(ub[2]):
                if not re.match(r'%"?(class|struct|union)\.tiny::', t) or re.search(r'\.\d+"?$', t) or 'anon' in t:
                    continue
                nobl += 1; ninv += 1
                if ua[2][t] != ub[2][t] and t not in seen:
                    seen.add(t)
                    chk.violations.append(dict(label='inv: one class name with two layouts: %s' % t, kit=t[:60], op='link_layout', cfg=d, stack=[], tape=[], replayed=True,
                                               native='configurations: %s | %s\n%s\n%s' % (ca, cb, ua[2][t], ub[2][t])))
    failed = len([v for v in chk.violations if v['op'].startswith('link')])
    chk.extra['coverage'] = dict(obligations=nobl, discharged=nobl - failed, link_name_obligations=nname, shared_definition_obligations=ninv, link_dialects=dialects,
                                 link_types=[o for _, o in TYPES], link_configurations=[' '.join([m, v]) for m in MACROS for v in versions],
                                 obligations_discharged_by={'comparison of constants of the IR': nobl},
                                 functions_under_contract=['every function and class of include/tiny/optional.h that the uses in tools/linkname.py instantiate, by its symbol'])

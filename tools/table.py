"""Which contract (operation x kit) is instantiated in which configuration, and which property it serves."""
import re

# ---------------------------------------------------------------------------------------------- configurations
CONFIGS = {
    'x20':   dict(flags=['-std=c++20'], cpp20=1, debug=1),
    'x17':   dict(flags=['-std=c++17'], debug=1),
    'x17n':  dict(flags=['-std=c++17', '-DNDEBUG', '-DVP_AS_GCC']),
    'x23':   dict(flags=['-std=c++2b'], cpp20=1, debug=1),
    'x20n':  dict(flags=['-std=c++20', '-DNDEBUG'], cpp20=1),
    'noub':  dict(flags=['-std=c++20', '-DNDEBUG', '-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS'], cpp20=1, nobit=1, nomem=1),
    'noub17d': dict(flags=['-std=c++17', '-DVP_AS_GCC', '-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS'], debug=1, nobit=1, nomem=1),
    'nobit': dict(flags=['-std=c++17', '-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS'], debug=1, nobit=1),
    'nomem': dict(flags=['-std=c++20', '-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER'], cpp20=1, debug=1, nomem=1),
    'm32':   dict(flags=['-m32', '-std=c++17'], debug=1, m32=1),
    'm32n20': dict(flags=['-m32', '-std=c++20', '-DNDEBUG'], cpp20=1, m32=1),
    'fast':  dict(flags=['-std=c++17', '-ffast-math', '-DNDEBUG'], fast=1),
    'fast20': dict(flags=['-std=c++20', '-ffast-math'], fast=1, cpp20=1, debug=1),
    'gccwa': dict(flags=['-std=c++20', '-DVP_AS_GCC'], cpp20=1, debug=1),
}

# ---------------------------------------------------------------------------------------------- operations
EMPTY_CTORS = ['ctor_default', 'ctor_brace', 'ctor_nullopt']
VALUE_READ = ['value_l', 'value_cl', 'value_r', 'value_cr']
BASE = EMPTY_CTORS + ['dtor', 'assign_nullopt', 'reset', 'reset_tail', 'assign_tail_nullopt', 'observe', 'access'] + VALUE_READ
ARGS = ['ctor_inplace0', 'ctor_inplace1', 'ctor_inplace2', 'ctor_inplace_il', 'emplace_none', 'emplace_conv', 'emplace_pair', 'emplace_il']
MAKE_ARGS = ['make_optional_pair', 'make_optional_il', 'make_optional_none']
CTOR_COPYV = ['ctor_value_copy', 'ctor_value_lref', 'ctor_inplace_copy']
CTOR_MOVEV = ['ctor_value_move', 'ctor_inplace_move']
COPYC = CTOR_COPYV + ['ctor_copy', 'ctor_copy_nonconst', 'emplace_copy', 'emplace_tail']
MOVEC = CTOR_MOVEV + ['ctor_move', 'emplace_move']
COPYA = ['assign_value_copy', 'assign_value_lref', 'assign_copy', 'assign_self_copy', 'assign_own_payload', 'assign_tail_copy', 'assign_tail_value']
MOVEA = ['assign_value_move', 'assign_move', 'assign_self_move', 'assign_brace', 'assign_own_payload_move', 'assign_tail_move', 'assign_tail_rvalue']
SWAP = ['swap_member', 'swap_free', 'swap_self', 'swap_tail']
VOR_C = ['value_or_own', 'value_or_cl', 'value_or_l', 'value_or_clr', 'value_or_cr']
VOR_M = ['value_or_r', 'value_or_rr']
MAKE_C = ['make_optional_copy', 'ctad_copy']
MAKE_M = ['make_optional_move', 'make_optional_args']
CONV = ['ctor_conv', 'assign_conv', 'value_or_conv']
ORELSE = ['or_else_l', 'or_else_cl', 'or_else_r', 'or_else_cr']
FULL = BASE + COPYC + MOVEC + COPYA + MOVEA + SWAP + VOR_C + VOR_M
AND_THEN = ['and_then_l', 'and_then_cl', 'and_then_r', 'and_then_cr']
TRANSFORM = ['transform_l', 'transform_cl', 'transform_r', 'transform_cr']
CMP = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
CMP_OO = ['cmp_oo_' + c for c in CMP]
CMP_SELF = ['cmp_self_' + c for c in CMP]
CMP_OV = ['cmp_ov_' + c for c in CMP]
MISUSE_DEREF = ['misuse_star_l', 'misuse_star_cl', 'misuse_star_r', 'misuse_star_cr', 'misuse_arrow', 'misuse_arrow_c']
MISUSE_STORE = ['misuse_store_ctor', 'misuse_store_ctor_r', 'misuse_store_inplace', 'misuse_store_assign_empty', 'misuse_store_assign_engaged',
                'misuse_store_assign_r', 'misuse_store_emplace']
MISUSE_MOVE = ['misuse_move_ctor', 'misuse_move_assign_empty', 'misuse_move_assign_engaged']
REP = ['rep_exact', 'rep_empty', 'rep_roundtrip']
MEMF = ['mem_exact', 'mem_frame_reset', 'mem_frame_nullopt', 'mem_frame_copyempty', 'mem_frame_moveempty', 'mem_frame_swap_l', 'mem_frame_swap_r', 'mem_frame_swap_free']

OP_HEADER = [(r'^(and_then|transform|or_else|monad)', 'monad.h'), (r'^(cmp|tw|hash)', 'cmp.h'), (r'^(rep_|mem_|misuse)', 'rep.h'), (r'^facts|^in_range|^size', 'facts.h'), (r'_cvt', 'conv.h')]
# operations that need something of the configuration
OP_NEEDS = [(r'^or_else', 'cpp20'), (r'^tw_', 'cpp20'), (r'^misuse', 'debug')]

KITS = {}


def kit(name, decl, ops, tags, needs='', hdr=()):
    KITS[name] = dict(name=name, decl=decl, ops=list(dict.fromkeys(ops)), tags=set(tags.split()), needs=set(needs.split()), hdr=list(hdr))


# --- abstract class payloads, separate flag
kit('sepT', 'using sepT = KAbs<tiny::optional<PT>, PT>;', FULL + ARGS + MAKE_ARGS + MAKE_C + MAKE_M + CONV + ORELSE + MISUSE_DEREF, 'abs sep throwing')
kit('sepN', 'using sepN = KAbs<tiny::optional<PN>, PN>;', FULL + ARGS + MAKE_ARGS + MAKE_C + MAKE_M + CONV + ORELSE, 'abs sep nothrow')
kit('sepA', 'using sepA = KAbs<tiny::optional<PA>, PA>;', FULL + ARGS + CONV, 'abs sep throwing')
kit('sepB', 'using sepB = KAbs<tiny::optional<PB>, PB>;', FULL + ARGS + CONV, 'abs sep throwing')
kit('sepM', 'using sepM = KAbs<tiny::optional<PM>, PM>;', BASE + ARGS + MAKE_ARGS + MAKE_M + MOVEC + MOVEA + SWAP + ['value_or_rr', 'or_else_r'], 'abs sep throwing')
kit('sepC', 'using sepC = KAbs<tiny::optional<PC>, PC>;', BASE + ARGS + MAKE_C + COPYC + COPYA + VOR_C + CONV, 'abs sep throwing')
kit('sepX', 'using sepX = KAbs<tiny::optional<PX>, PX>;', BASE + ARGS + MAKE_ARGS, 'abs sep throwing')
kit('sepK', 'using sepK = KAbs<tiny::optional<PT const>, PT const>;', BASE + ARGS + COPYC + ['ctor_move', 'emplace_move', 'value_or_cl', 'value_or_r', 'value_or_cr'], 'abs sep throwing const')
# --- variations of the payload: forwarding, overloaded operators, empty and final, polymorphic, trivially destructible, noexcept pattern, size, alignment
FWD = ['%s_%s' % (o, c) for o in ('ctor_fwd', 'ctor_fwd_inplace', 'ctor_fwd_pair', 'ctor_fwd_il', 'make_optional_fwd', 'make_optional_fwd_pair', 'make_optional_fwd_il', 'assign_fwd', 'emplace_fwd',
                                  'emplace_fwd_pair', 'emplace_fwd_il', 'value_or_fwd_c', 'value_or_fwd_r') for c in ('cl', 'l', 'r', 'cr')]
VARI = FULL + ARGS + CONV + ['or_else_cl', 'or_else_r']
VAR = VARI + MAKE_ARGS
kit('sepF', 'using sepF = KAbs<tiny::optional<PF>, PF>;', FWD, 'abs sep throwing')
kit('inpF', 'using inpF = KCust<tiny::optional_inplace<PF, AbsManip<PF, K_P>>, PF>;', [o for o in FWD if not o.startswith('make')], 'abs cust throwing inplace')
kit('sepFx', 'using sepFx = KAbs<tiny::optional<PFX>, PFX>;', [o for o in FWD if not o.startswith('value_or')], 'abs sep throwing')
kit('inpFx', 'using inpFx = KCust<tiny::optional_inplace<PFX, AbsManip<PFX, K_P>>, PFX>;', [o for o in FWD if not o.startswith(('value_or', 'make'))], 'abs cust throwing inplace')
kit('sepL', 'using sepL = KAbs<tiny::optional<PL>, PL>;', VAR + MAKE_C + MAKE_M, 'abs sep throwing')
kit('inpL', 'using inpL = KCust<tiny::optional_inplace<PL, AbsManip<PL, K_P>>, PL>;', VARI, 'abs cust throwing inplace')
kit('sepY', 'using sepY = KAbs<tiny::optional<PY>, PY>;', VAR + MAKE_C + MAKE_M, 'abs sep throwing')
kit('inpY', 'using inpY = KCust<tiny::optional_inplace<PY, AbsManip<PY, K_P>>, PY>;', VARI, 'abs cust throwing inplace')
kit('sepH', 'using sepH = KAbs<tiny::optional<PH>, PH>;', VAR + MAKE_C + MAKE_M, 'abs sep throwing')
kit('inpH', 'using inpH = KCust<tiny::optional_inplace<PH, AbsManip<PH, K_P>>, PH>;', VARI, 'abs cust throwing inplace')
kit('sepE0', 'using sepE0 = KAbs<tiny::optional<PE>, PE>;', VAR, 'abs sep throwing')
kit('sepV', 'using sepV = KAbs<tiny::optional<PV>, PV>;', VAR, 'abs sep throwing')
kit('sepDT', 'using sepDT = KTriv<tiny::optional<PDT>, PDT>;', VAR + MAKE_C + MAKE_M, 'abs sep throwing triv')
kit('sepDN', 'using sepDN = KTriv<tiny::optional<PDN>, PDN>;', VAR + MAKE_C + MAKE_M, 'abs sep nothrow triv')
# covering array of strength 3 over the noexcept pattern (copy/move construction, copy/move assignment, value construction, own swap)
ROWS = [(0, 0, 0, 1, 1, 1, 0), (1, 0, 1, 0, 0, 0, 0), (0, 1, 0, 0, 0, 0, 1), (1, 1, 1, 1, 1, 1, 1), (1, 0, 0, 1, 0, 0, 1), (0, 1, 1, 0, 1, 0, 0), (1, 1, 0, 0, 0, 1, 0),
        (0, 0, 1, 0, 0, 1, 1), (0, 1, 1, 1, 0, 0, 0), (1, 0, 0, 0, 1, 0, 1), (0, 0, 1, 1, 1, 0, 1), (1, 1, 0, 1, 1, 0, 0), (0, 1, 1, 0, 1, 1, 0), (1, 0, 0, 1, 0, 1, 1)]
LAYOUT = [(1, 1), (3, 1), (24, 8), (40, 8), (2, 2), (16, 16), (12, 4), (64, 32), (7, 1), (8, 8), (6, 2), (32, 16), (5, 1), (20, 4)]
for i_, (cc, mc, ca, ma, vc, sw, nsw) in enumerate(ROWS):
    fl = '|'.join(n for n, b in (('nCC', cc), ('nMC', mc), ('nCA', ca), ('nMA', ma), ('nVC', vc), ('hasSW', sw), ('nSW', nsw)) if b) or '0'
    P = 'PG<%s, %d, %d>' % (fl, *LAYOUT[i_])
    tg = 'nothrow' if cc and mc and ca and ma and vc and (nsw or not sw) else 'throwing'
    kit('sepG%d' % i_, 'using sepG%d = KAbs<tiny::optional<%s>, %s>;' % (i_, P, P), VAR, 'abs sep grid ' + tg)
    if i_ % 3 == 0:
        kit('inpG%d' % i_, 'using inpG%d = KCust<tiny::optional_inplace<%s, AbsManip<%s, K_P>>, %s>;' % (i_, P, P, P), VARI, 'abs cust inplace grid ' + tg)
RAW = FULL + ['or_else_cl', 'or_else_r']
RAWMK = MAKE_C + MAKE_M
kit('sepI', 'using sepI = KRaw<tiny::optional<int>, int, LAny>;', RAW + RAWMK + ['hash', 'hash_equal'], 'raw sep')
kit('sepUC', 'using sepUC = KRaw<tiny::optional<unsigned char>, unsigned char, LAny>;', RAW + RAWMK + ['hash'], 'raw sep')
kit('sepLL', 'using sepLL = KRaw<tiny::optional<long long>, long long, LAny>;', RAW + RAWMK, 'raw sep')
kit('sepS', 'struct RawS { short x; };\nusing sepS = KRaw<tiny::optional<RawS>, RawS, LAny>;', RAW + RAWMK, 'raw sep')
kit('sepMP', 'using MpT = int SI::*;\nusing sepMP = KRaw<tiny::optional<MpT>, MpT, LAny>;', RAW + RAWMK, 'raw sep')
kit('sepKI', 'using sepKI = KRaw<tiny::optional<int const>, int const, LAny>;', BASE + COPYC + MOVEC + VOR_C, 'raw sep const')
kit('sepE', 'enum class E8 : unsigned char { a = 1, b = 7 };\nusing sepE = KRaw<tiny::optional<E8>, E8, LAny>;', RAW + RAWMK, 'raw sep')

# --- payloads that are optionals themselves
NEST = FULL + ['make_optional_copy', 'make_optional_move', 'make_optional_args']
kit('nesD', 'using nesD = KNest<tiny::optional<tiny::optional<double>>, KRaw<tiny::optional<double>, double, LDouble>>;', NEST, 'raw sep nest')
kit('nesI', 'using nesI = KNest<tiny::optional<tiny::optional<int>>, KRaw<tiny::optional<int>, int, LAny>>;', NEST, 'raw sep nest')
kit('nesS', 'using nesS = KNest<tiny::optional<std::optional<int>>, KRaw<std::optional<int>, int, LAny>>;', NEST, 'raw sep nest')
kit('nesU', 'using nesU = KNest<tiny::optional<tiny::optional<unsigned char, 9>>, KRaw<tiny::optional<unsigned char, 9>, unsigned char, LNot<9u>>>;', NEST, 'raw sep nest')

# --- large trivially copyable payloads
kit('sepSX', 'using sepSX = KFields<tiny::optional<SX>, FXs>;', RAW + RAWMK, 'raw sep')
kit('sepSY', 'using sepSY = KFields<tiny::optional<SY>, FYs>;', RAW + RAWMK, 'raw sep')
kit('sepSD', 'using sepSD = KFields<tiny::optional<SD>, FDs>;', RAW + RAWMK, 'raw sep')
kit('sepSS', 'using sepSS = KFields<tiny::optional<SI>, FSs>;', RAW + RAWMK, 'raw sep')
kit('sepEB', 'enum class EBo : bool { n, y };\nusing sepEB = KRaw<tiny::optional<EBo>, EBo, LBool>;', RAW + RAWMK, 'raw sep')
# --- spare bit patterns
def spare(name, T, legal, res, extra=(), ops=None, decl=''):
    kit(name, decl + 'using %s = WithRes<KRaw<tiny::optional<%s>, %s, %s>, %s>;' % (name, T, T, legal, res),
        (ops or RAW + RAWMK + REP) + list(extra), 'raw spare')
spare('bitD', 'double', 'LDouble', 'kResDouble', ['hash', 'hash_equal'])
spare('bitF', 'float', 'LFloat', 'kResFloat', ['hash', 'hash_equal'])
spare('bitB', 'bool', 'LBool', 'kResBool', ['hash', 'hash_equal', 'misuse_star_l', 'misuse_arrow_c'])
spare('bitP', 'int *', 'LPtr', 'kResPtr', ['hash'], decl='')
spare('bitCP', 'char const *', 'LPtr', 'kResPtr')
spare('bitVP', 'void *', 'LPtr', 'kResPtr')
spare('bitFP', 'FnP', 'LPtr', 'kResPtr', decl='using FnP = int (*)(double);\n')
spare('bitPP', 'PT **', 'LPtr', 'kResPtr')
CREP = BASE + COPYC + MOVEC + VOR_C
spare('bitKD', 'double const', 'LDouble', 'kResDouble', ops=CREP + ['rep_exact', 'rep_roundtrip'])
spare('bitVD', 'double volatile', 'LDouble', 'kResDouble', ops=BASE + ['ctor_value_copy', 'ctor_copy', 'ctor_move', 'emplace_copy', 'assign_value_copy', 'assign_copy', 'value_or_cl', 'swap_member'] + REP)
spare('bitKB', 'bool const', 'LBool', 'kResBool', ops=CREP + ['rep_exact', 'rep_roundtrip'])
spare('bitKP', 'int * const', 'LPtr', 'kResPtr', ops=CREP + ['rep_exact', 'rep_roundtrip'])
kit('aipD', 'using aipD = WithRes<KRaw<tiny::optional_aip<double>, double, LDouble>, kResDouble>;', FULL + REP, 'raw spare aipbit')
kit('aipB', 'using aipB = WithRes<KRaw<tiny::optional_aip<bool>, bool, LBool>, kResBool>;', FULL + REP, 'raw spare aipbit')
kit('aipP', 'using aipP = WithRes<KRaw<tiny::optional_aip<int *>, int *, LPtr>, kResPtr>;', FULL + REP, 'raw spare aipbit')

# --- sentinels.  The number is the bit pattern of the sentinel in the payload type.
def sent(name, O, T, pat, extra=(), needs='', decl='', ops=None, tags='', misuse=True):
    kit(name, decl + 'using %s = WithSent<KRaw<%s, %s, LNot<%s>>, %s>;' % (name, O, T, pat, pat),
        (ops or RAW + REP + (MISUSE_STORE if misuse else [])) + list(extra), 'raw sent ' + tags, needs)
sent('senI', 'tiny::optional<int, 42>', 'int', '42u', ['hash', 'hash_equal', 'misuse_star_cl'])
sent('senIm', 'tiny::optional<int, -1>', 'int', '0xffffffffu')
sent('senU', 'tiny::optional<unsigned, 42>', 'unsigned', '42u')
sent('senLL', 'tiny::optional<long long, -1>', 'long long', '0xffffffffffffffffull')
sent('senSC', 'tiny::optional<signed char, -128>', 'signed char', '0x80u')
sent('senU64', 'tiny::optional<std::uint64_t, 0xfffffffffffffffful>', 'std::uint64_t', '0xffffffffffffffffull', needs='!m32')
sent('senU64i', 'tiny::optional<std::uint64_t, 7>', 'std::uint64_t', '7ull')
sent('senUL', 'tiny::optional<unsigned long long, 18446744073709551615ull>', 'unsigned long long', '0xffffffffffffffffull')
sent('senC', "tiny::optional<char, 'a'>", 'char', '97u')
sent('senUS', 'tiny::optional<unsigned short, 65535>', 'unsigned short', '0xffffu')
sent('senC16', "tiny::optional<char16_t, u'x'>", 'char16_t', '120u')
sent('senW', "tiny::optional<wchar_t, L'x'>", 'wchar_t', '120u')
sent('senC32', "tiny::optional<char32_t, U'x'>", 'char32_t', '120u')
sent('senVI', 'tiny::optional<int volatile, 42>', 'int volatile', '42u', ops=BASE + ['ctor_value_copy', 'ctor_copy', 'ctor_move', 'emplace_copy', 'assign_value_copy', 'assign_copy', 'value_or_cl', 'swap_member'] + REP)
sent('senAmp', 'tiny::optional<Amp>', 'Amp', '7u', needs='cpp20', decl='struct Amp { int v; bool operator==(Amp const & o) const noexcept { return v == o.v; } Amp * operator&() noexcept { return nullptr; } Amp const * operator&() const noexcept { return nullptr; } };\ntemplate <> struct tiny::optional_flag_manipulator<Amp> : tiny::sentinel_flag_manipulator<Amp, Amp{7}> { };\n', tags='sfm')
sent('senAmpT', 'tiny::optional<AmpT, AmpT{7}>', 'AmpT', '7u', needs='cpp20', decl='struct AmpT { int v; bool operator==(AmpT const & o) const noexcept { return v == o.v; } AmpT * operator&() noexcept { return nullptr; } AmpT const * operator&() const noexcept { return nullptr; } };\n')
sent('senE', 'tiny::optional<E9, E9::inv>', 'E9', '200u', decl='enum class E9 : unsigned char { a = 1, inv = 200 };\n')
sent('senVT', 'tiny::optional_sentinel_via_type<int, S7>', 'int', '7u', decl='struct S7 { static constexpr int value = 7; };\n')
sent('senVTu', 'tiny::optional_sentinel_via_type<unsigned short, S8>', 'unsigned short', '8u', decl='struct S8 { static constexpr long long value = 8; };\n')
sent('senVTD', 'tiny::optional_sentinel_via_type<double, SDv>', 'double', '0x4045000000000000ull', decl='struct SDv { static constexpr double value = 42.0; };\n', needs='!fast', ops=FULL + ['rep_exact', 'rep_empty', 'rep_roundtrip'] + MISUSE_STORE)
sent('senVTF', 'tiny::optional_sentinel_via_type<float, SFv>', 'float', '0xbf800000u', decl='struct SFv { static constexpr float value = -1.0f; };\n', needs='!fast', ops=FULL + ['rep_exact', 'rep_empty', 'rep_roundtrip'])
sent('senNP', 'tiny::optional<int *, nullptr>', 'int *', '0u')
sent('senBT', 'tiny::optional<bool, true>', 'bool', '1u', ops=BASE, misuse=False)
kit('senBF', 'struct LBT { static bool ok(u64 v) noexcept { return v == 0; } };\nusing senBF = WithSent<KRaw<tiny::optional<bool, true>, bool, LBT>, 1u>;', FULL + REP + MISUSE_STORE, 'raw sent')
del KITS['senBT']
sent('senKI', 'tiny::optional<int const, 42>', 'int const', '42u', ops=CREP + ['rep_exact', 'rep_roundtrip', 'misuse_store_ctor', 'misuse_store_emplace'])
sent('senM', 'tiny::optional<E10>', 'E10', '0xfffffffeu', decl='enum E10 : int { e10a, e10inv = -2 };\ntemplate <> struct tiny::optional_flag_manipulator<E10> : tiny::sentinel_flag_manipulator<E10, e10inv> { };\n', ops=RAW + RAWMK + REP + MISUSE_STORE + ['misuse_store_transform'], tags='sfm')
sent('senML', 'tiny::optional<LngI>', 'LngI', '5u', decl='enum class LngI : long long { five = 5 };\ntemplate <> struct tiny::optional_flag_manipulator<LngI> : tiny::sentinel_flag_manipulator<LngI, LngI::five> { };\n', ops=RAW + REP + ['misuse_store_transform', 'misuse_store_assign_engaged'], tags='sfm')
sent('senIn', 'tiny::optional_inplace<int, InM>', 'int', '9u', decl='struct InM : tiny::sentinel_flag_manipulator<int, 9> { };\n', tags='sfm inplace')
sent('senNT', 'tiny::optional<NT, NT{3, 4}>', 'NT', '0x0000000400000003ull', needs='cpp20', decl='struct NT { int x, y; bool operator==(NT const & o) const noexcept { return x == o.x && y == o.y; } };\n')
for (nm, T, pat) in [('US', 'unsigned short', '0xffffu'), ('UI', 'unsigned', '0xffffffffu'), ('ULL', 'unsigned long long', '0xffffffffffffffffull'),
                     ('SS', 'short', '0x8000u'), ('SI', 'int', '0x80000000u'), ('SLL', 'long long', '0x8000000000000000ull'),
                     ('UL', 'unsigned long', '(sizeof(long) == 8 ? 0xffffffffffffffffull : 0xffffffffull)'), ('SL', 'long', '(sizeof(long) == 8 ? 0x8000000000000000ull : 0x80000000ull)')]:
    sent('aip' + nm, 'tiny::optional_aip<%s>' % T, T, pat, tags='aip')
sent('aipKU', 'tiny::optional_aip<unsigned const>', 'unsigned const', '0xffffffffu', ops=CREP + ['rep_exact', 'rep_roundtrip'], tags='aip')
sent('aipC', 'tiny::optional_aip<char, 0>', 'char', '0u', tags='aip')
sent('aipUC', 'tiny::optional_aip<unsigned char, 255>', 'unsigned char', '255u', tags='aip')
sent('aipE', 'tiny::optional_aip<E10b>', 'E10b', '3u', decl='enum E10b : unsigned { e10b = 3 };\ntemplate <> struct tiny::optional_flag_manipulator<E10b> : tiny::sentinel_flag_manipulator<E10b, e10b> { };\n', tags='aip sfm')

# make_optional with explicit sentinel / member
MKS = ['make_optional_s_copy', 'make_optional_s_move']
def mks(name, base, args, tags, pre='', needs=''):
    kit(name, pre + 'using %s = WithMk<%s, %s>;' % (name, base, args), MKS, tags, needs)
mks('mksI', 'KRaw<tiny::optional<int, 42>, int, LNot<42u>>', '42', 'raw sent')
mks('mksC', "KRaw<tiny::optional<char, 'a'>, char, LNot<97u>>", "'a'", 'raw sent')
mks('mksE', 'KRaw<tiny::optional<E11, E11::inv>, E11, LNot<200u>>', 'E11::inv', 'raw sent', pre='enum class E11 : unsigned char { a = 1, inv = 200 };\n')
mks('mksP', 'KRaw<tiny::optional<int *, nullptr>, int *, LNot<0u>>', 'nullptr', 'raw sent')

# --- custom manipulators
CUS = FULL + ARGS + CONV + ORELSE
kit('cusT', 'using cusT = KCust<tiny::optional<QT>, QT>;', CUS + MAKE_ARGS + MAKE_C + MAKE_M + MISUSE_DEREF, 'abs cust throwing')
kit('cusN', 'using cusN = KCust<tiny::optional<QN>, QN>;', CUS + MAKE_ARGS + MAKE_C, 'abs cust nothrow')
kit('inpT', 'using inpT = KCust<tiny::optional_inplace<PT, AbsManip<PT, K_P>>, PT>;', CUS + MISUSE_DEREF, 'abs cust throwing inplace')
kit('inpN', 'using inpN = KCust<tiny::optional_inplace<PN, AbsManip<PN, K_P>>, PN>;', CUS, 'abs cust nothrow inplace')
kit('inpM', 'using inpM = KCust<tiny::optional_inplace<PM, AbsManip<PM, K_P>>, PM>;', BASE + ARGS + MOVEC + MOVEA + SWAP + ['value_or_rr', 'or_else_r'], 'abs cust throwing inplace')
kit('inpX', 'using inpX = KCust<tiny::optional_inplace<PX, AbsManip<PX, K_P>>, PX>;', BASE + ARGS, 'abs cust throwing inplace')
kit('cusAip', 'using cusAip = KCust<tiny::optional_aip<QT>, QT>;', FULL + ARGS, 'abs cust throwing aip')

# --- flag in a member
MEMOPS = BASE + COPYC + MOVEC + COPYA + MOVEA + SWAP + VOR_C + VOR_M + ['or_else_cl', 'or_else_r']
kit('memT', 'using memT = KMemAbs<tiny::optional<SM, &SM::m>>;', [o for o in MEMOPS if not o.startswith('or_else')] + ['ctor_inplace1', 'emplace_conv', 'misuse_star_l', 'misuse_arrow_c'], 'abs mem throwing')
kit('memTv', 'using memTv = KMemAbs<tiny::optional_sentinel_via_type<SM, tiny::UseDefaultType, &SM::m>>;', BASE + COPYC + MOVEC + ['assign_copy', 'assign_move', 'swap_member'], 'abs mem throwing')
def mem(name, O, F, decl='', sentn=False):
    k = 'KFields<%s, %s>' % (O, F)
    if sentn:
        k = 'WithMemSent<%s>' % k
    kit(name, decl + 'using %s = %s;' % (name, k), MEMOPS + MEMF + (MISUSE_STORE if sentn else []), 'raw mem ' + ('memsent' if sentn else 'membit'))
mem('memD', 'tiny::optional<SD, &SD::m>', 'FD')
mem('memX', 'tiny::optional<SX, &SX::m>', 'FX')
mem('memP', 'tiny::optional<SP, &SP::m>', 'FP')
mem('memB', 'tiny::optional<SB, &SB::m>', 'FB')
mem('memF', 'tiny::optional<SF, &SF::m>', 'FF')
mem('memI', 'tiny::optional<SI, &SI::m, -5>', 'FI<0xfffffffbu>', sentn=True)
mem('memU', 'tiny::optional<SU, &SU::m, 200>', 'FU<200u>', sentn=True)
mem('memL', 'tiny::optional<SL, &SL::m, 9>', 'FL<9u>', sentn=True)
mem('memIv', 'tiny::optional_sentinel_via_type<SI, S6, &SI::m>', 'FI<6u>', decl='struct S6 { static constexpr int value = 6; };\n', sentn=True)
mem('memPn', 'tiny::optional<SP, &SP::m, nullptr>', 'FPn', decl='struct FPn : FieldsOf<SP, &SP::a, &SP::m, &SP::b> { static constexpr u64 reserved = 0; static bool legal(u64 m) noexcept { return VP_NO_MEMBER || m != 0; } };\n', sentn=True)
mem('memK', 'tiny::optional<SK, &SK::m, 5>', 'FK', decl='struct SK { char a; int const m; short b; };\nstruct FK : FieldsOf<SK, &SK::a, &SK::m, &SK::b> { static constexpr u64 reserved = 5; static bool legal(u64 m) noexcept { return VP_NO_MEMBER || m != 5; } };\n', sentn=False)
KITS['memK']['ops'] = BASE + ['ctor_value_copy', 'ctor_copy', 'ctor_move', 'emplace_copy', 'value_or_cl', 'mem_exact', 'mem_frame_reset', 'mem_frame_nullopt']

FB_ = ' { static constexpr u64 reserved = %s; static bool legal(u64 m) noexcept { return VP_NO_MEMBER || m != %s; } };\n'
mem('memE', 'tiny::optional<SEn, &SEn::m, EnM::none>', 'FEn', decl='enum class EnM : unsigned char { none = 9, a };\nstruct SEn { char a; EnM m; short b; };\nstruct FEn : FieldsOf<SEn, &SEn::a, &SEn::m, &SEn::b>' + FB_ % ('9', '9'), sentn=True)

mks('mksM', 'KFields<tiny::optional<SI, &SI::m, -5>, FI<0xfffffffbu>>', '&SI::m, -5', 'raw mem memsent')
mks('mksD', 'KFields<tiny::optional<SD, &SD::m>, FD>', '&SD::m', 'raw mem membit')
mks('mksT', 'KMemAbs<tiny::optional<SM, &SM::m>>', '&SM::m', 'abs mem throwing')
# --- misuse: moved-from payload becomes the sentinel
kit('mvI', 'using mvI = KRaw<tiny::optional_inplace<MV, MVManip>, MV, LNot<0>>;', MISUSE_MOVE, 'mv', hdr=['rep.h'])
kit('mvM', 'using mvM = KRaw<tiny::optional<MV, &MV::v, 0>, MV, LNot<0>>;', MISUSE_MOVE, 'mv', hdr=['rep.h'], needs='!nomem')

# --- monadic: source kit x result kit
def monad(name, K, RK, ops, nx='false', needs='', tags=''):
    kit(name, 'struct %s { using K = %s; using RK = %s; static constexpr bool nx = %s; };' % (name, K, RK, nx), ops, 'monad ' + tags, needs, hdr=['monad.h', 'rep.h'])
_sepT = 'KAbs<tiny::optional<PT>, PT>'; _sepN = 'KAbs<tiny::optional<PN>, PN>'; _cusT = 'KCust<tiny::optional<QT>, QT>'; _cusN = 'KCust<tiny::optional<QN>, QN>'
_inpT = 'KCust<tiny::optional_inplace<PT, AbsManip<PT, K_P>>, PT>'
_bitD = 'KRaw<tiny::optional<double>, double, LDouble>'; _bitB = 'KRaw<tiny::optional<bool>, bool, LBool>'; _sepI = 'KRaw<tiny::optional<int>, int, LAny>'
_senI = 'KRaw<tiny::optional<int, 42>, int, LNot<42u>>'
_memD = 'KFields<tiny::optional<SD, &SD::m>, FD>'
ALLM = AND_THEN + TRANSFORM
monad('moTT', _sepT, 'RAbs<%s>' % _sepT, ALLM, tags='abs throwing')
monad('moTN', _sepT, 'RAbs<%s>' % _sepN, ALLM, tags='abs throwing')
monad('moTNx', _sepN, 'RAbs<%s>' % _sepN, ALLM, nx='true', tags='abs nothrow')
monad('moTX', _sepT, 'RAbs<KAbs<tiny::optional<PX>, PX>>', TRANSFORM, tags='abs throwing')
monad('moTQ', _sepT, 'RAbs<%s>' % _cusT, ALLM, tags='abs throwing cust')
monad('moTQN', _sepT, 'RAbs<%s>' % _cusN, ALLM, tags='abs throwing cust')
monad('moQT', _cusT, 'RAbs<%s>' % _sepT, ALLM, tags='abs throwing cust')
monad('moIT', _inpT, 'RAbs<%s>' % _sepT, ALLM, tags='abs throwing cust')
monad('moTS', _sepT, 'RAbs<KAbs<std::optional<PT>, PT>>', AND_THEN, tags='abs throwing')
monad('moTD', _sepT, 'RRaw<%s>' % _bitD, ALLM, tags='abs throwing')
monad('moTB', _sepT, 'RRaw<%s>' % _bitB, ALLM, tags='abs throwing')
monad('moTI', _sepT, 'RRaw<%s>' % _sepI, ALLM, tags='abs throwing')
monad('moTSI', _sepT, 'RRaw<%s>' % _senI, AND_THEN, tags='abs throwing')
monad('moDT', _bitD, 'RAbs<%s>' % _sepT, ALLM, tags='raw throwing')
monad('moBI', _bitB, 'RRaw<%s>' % _sepI, ALLM, nx='true', tags='raw')
monad('moSI', _senI, 'RRaw<%s>' % _sepI, ALLM, tags='raw')
monad('moMT', _memD, 'RAbs<%s>' % _sepT, ALLM, tags='raw mem')
monad('moCT', 'KAbs<tiny::optional<PT const>, PT const>', 'RAbs<%s>' % _sepT, ALLM, tags='abs throwing const')
kit('moMF', 'using moMF = KRaw<tiny::optional<MF>, MF, LAny>;', ['monad_memfn'], 'monad raw', hdr=['monad.h'])

# --- arguments of other built-in types
CVOPS = ['ctor_cvt', 'ctor_cvt_inplace', 'assign_cvt', 'emplace_cvt', 'value_or_cvt']
def cv(name, base, arg, tags, ops=CVOPS, pre='', needs=''):
    kit(name, pre + 'using %s = WithConv<%s, %s>;' % (name, base, arg), ops, tags, needs, hdr=['conv.h'])
cv('cvLI', 'KRaw<tiny::optional<long long>, long long, LAny>', 'AInt<int>', 'raw sep')
cv('cvIL', 'KRaw<tiny::optional<int, 42>, int, LNot<42u>>', 'AInt<long long>', 'raw sent')
cv('cvUC', 'KRaw<tiny::optional<unsigned char>, unsigned char, LAny>', 'AInt<int>', 'raw sep')
cv('cvAI', 'KRaw<tiny::optional_aip<int>, int, LNot<0x80000000u>>', 'AInt<unsigned short>', 'raw sent aip')
cv('cvBI', 'KRaw<tiny::optional<bool>, bool, LBool>', 'AInt<int>', 'raw spare')
cv('cvDI', 'KRaw<tiny::optional<double>, double, LDouble>', 'AInt<int>', 'raw spare')
cv('cvDF', 'KRaw<tiny::optional<double>, double, LDouble>', 'AFlt', 'raw spare')
cv('cvPN', 'KRaw<tiny::optional<int *>, int *, LPtr>', 'ANull', 'raw spare')
cv('cvMN', 'KRaw<tiny::optional<MpC>, MpC, LAny>', 'ANull', 'raw sep', pre='using MpC = int SI::*;\n', ops=CVOPS[:4])
cv('cvPV', 'KRaw<tiny::optional<void const *>, void const *, LPtr>', 'AInt<int *>', 'raw spare')
cv('cvPB', 'KRaw<tiny::optional<CvBase2 *>, CvBase2 *, LPtr>', 'AInt<CvDer12 *>', 'raw spare')
cv('cvPD', 'KRaw<tiny::optional<char const *>, char const *, LPtr>', 'ANull', 'raw spare', ops=CVOPS + ['ctor_cvt_decay'])
cv('cvFD', 'KRaw<tiny::optional<CvFn>, CvFn, LPtr>', 'ANull', 'raw spare', ops=CVOPS + ['ctor_cvt_decay'], pre='using CvFn = int (*)(double);\n')
# --- comparisons and hash
CK = {
    'a0': 'KAbs<tiny::optional<CP<0>>, CP<0>>', 'a4': 'KAbs<tiny::optional<CP<4>>, CP<4>>', 'a1': 'KCust<tiny::optional<CP<1>>, CP<1>>', 'a2': 'KAbs<std::optional<CP<2>>, CP<2>>',
    'a3': 'KCust<tiny::optional_inplace<CP<3>, AbsManip<CP<3>, K_P>>, CP<3>>', 'a5': 'KCust<tiny::optional_inplace<CP<5>, AbsManip<CP<5>, K_P>>, CP<5>>',
    'k0': 'KAbs<tiny::optional<CP<0> const>, CP<0> const>',
    'd': 'KRaw<tiny::optional<double>, double, LDouble>', 'f': 'KRaw<tiny::optional<float>, float, LFloat>', 'sd': 'KRaw<std::optional<double>, double, LAny>', 'i': 'KRaw<tiny::optional<int, -1>, int, LNot<0xffffffffu>>',
    'i2': 'KRaw<tiny::optional<int>, int, LAny>', 'll': 'KRaw<tiny::optional<long long, 5>, long long, LNot<5u>>', 'sll': 'KRaw<std::optional<long long>, long long, LAny>',
    'b': 'KRaw<tiny::optional<bool>, bool, LBool>', 'sb': 'KRaw<std::optional<bool>, bool, LBool>', 'v': 'KRaw<tiny::optional_sentinel_via_type<int, S7c>, int, LNot<7u>>',
    'si': 'KRaw<std::optional<int>, int, LAny>',
    'q': 'KFields<tiny::optional<SQ>, FQ>', 'q5': 'KFields<tiny::optional<SQ, &SQ::m, 5>, FQ5>', 'sq': 'KFields<std::optional<SQ>, FQ>',
    'nI': 'KNest<tiny::optional<tiny::optional<int>>, KRaw<tiny::optional<int>, int, LAny>>', 'nS': 'KNest<tiny::optional<std::optional<int>>, KRaw<std::optional<int>, int, LAny>>', 'snI': 'KNest<std::optional<tiny::optional<int>>, KRaw<tiny::optional<int>, int, LAny>>',
    'p': 'KRaw<tiny::optional<int *>, int *, LPtr>', 'sp': 'KRaw<std::optional<int *>, int *, LAny>',
}
for (x, y) in [('a0', 'a0'), ('a0', 'a4'), ('a0', 'a1'), ('a1', 'a0'), ('a0', 'a2'), ('a2', 'a0'), ('a1', 'a2'), ('a2', 'a1'), ('a3', 'a3'), ('a3', 'a5'), ('a3', 'a0'), ('a0', 'a3'), ('a3', 'a2'), ('a2', 'a3'), ('k0', 'a0'),
               ('d', 'd'), ('d', 'f'), ('d', 'sd'), ('sd', 'd'), ('i', 'i'), ('i', 'i2'), ('i', 'll'), ('i', 'sll'), ('sll', 'i'), ('b', 'b'), ('b', 'sb'), ('sb', 'b'), ('v', 'v'), ('v', 'i'), ('v', 'si'), ('si', 'v'),
               ('q', 'q'), ('q5', 'q5'), ('q', 'q5'), ('q', 'sq'), ('sq', 'q5'), ('nI', 'nI'), ('nI', 'i2'), ('i2', 'nI'), ('nI', 'i'), ('nS', 'nS'), ('nS', 'nI')]:
    n = 'co_%s_%s' % (x, y)
    kit(n, 'struct %s { using A = %s; using B = %s; };' % (n, CK[x], CK[y]), CMP_OO, 'cmp' + (' abs' if x[0] in 'ak' else ' raw'), hdr=['cmp.h'])
for (x, y) in [('a0', 'a0'), ('a0', 'a4'), ('a1', 'a0'), ('a3', 'a3'), ('a3', 'a0'), ('k0', 'a4'), ('d', 'd'), ('d', 'f'), ('i', 'i'), ('i', 'll'), ('b', 'b'), ('v', 'i'), ('q', 'q'), ('q5', 'q')]:
    n = 'cv_%s_%s' % (x, y)
    kit(n, 'struct %s { using A = %s; using B = %s; };' % (n, CK[x], CK[y]), CMP_OV, 'cmp' + (' abs' if x[0] in 'ak' else ' raw'), hdr=['cmp.h'])
for x in ['a0', 'a1', 'a3', 'k0', 'd', 'f', 'i', 'i2', 'b', 'v', 'q', 'q5', 'nI', 'nS', 'p']:
    n = 'cn_' + x
    kit(n, 'using %s = %s;' % (n, CK[x]), ['cmp_nullopt'] + (CMP_SELF if x[0] != 'n' and x != 'p' else []), 'cmp' + (' abs' if x[0] in 'ak' else ' raw'), hdr=['cmp.h'])
TK = {'t0': 'KAbs<tiny::optional<CT<0>>, CT<0>>', 't1': 'KAbs<std::optional<CT<0>>, CT<0>>', 't3': 'KCust<tiny::optional_inplace<CT<0>, AbsManip<CT<0>, K_P>>, CT<0>>',
      't4': 'KCust<tiny::optional<CT<1>>, CT<1>>', 't5': 'KAbs<std::optional<CT<1>>, CT<1>>'}
TK.update(CK)
for (x, y) in [('t0', 't0'), ('t0', 't1'), ('t1', 't0'), ('t3', 't3'), ('t3', 't1'), ('t1', 't3'), ('t0', 't3'), ('t3', 't0'), ('t4', 't4'), ('t4', 't5'), ('t5', 't4'),
               ('d', 'd'), ('d', 'f'), ('d', 'sd'), ('sd', 'd'), ('i', 'll'), ('i', 'sll'), ('sll', 'i'), ('b', 'b'), ('v', 'i'), ('v', 'si'), ('si', 'v')]:
    n = 'to_%s_%s' % (x, y)
    kit(n, 'struct %s { using A = %s; using B = %s; };' % (n, TK[x], TK[y]), ['tw_oo'], 'tw', hdr=['cmp.h'], needs='cpp20')
for (x, y) in [('t0', 't0'), ('t3', 't3'), ('t4', 't4'), ('d', 'd'), ('d', 'f'), ('i', 'll'), ('b', 'b'), ('v', 'i')]:
    n = 'tv_%s_%s' % (x, y)
    kit(n, 'struct %s { using A = %s; using B = %s; };' % (n, TK[x], TK[y]), ['tw_ov'], 'tw', hdr=['cmp.h'], needs='cpp20')
for x in ['t0', 't3', 't4', 'd', 'f', 'i', 'v']:
    n = 'tn_' + x
    kit(n, 'using %s = %s;' % (n, TK[x]), ['tw_nullopt', 'tw_self'], 'tw', hdr=['cmp.h'], needs='cpp20')
for x in ['a0', 'a1', 'a3', 'k0', 'v', 'q', 'q5']:
    n = 'ha_' + x
    kit(n, 'using %s = %s;' % (n, CK[x]), ['hash'], 'hash', hdr=['cmp.h'])

# ---------------------------------------------------------------------------------------------- facts (types)
def facts_kit(name, fns, tags, needs='', pre=''):
    """fns: list of (entry suffix, body)"""
    decl = pre + '\n'.join('template <class> void c_%s() { %s }' % (n, b) for n, b in fns) + '\nstruct %s;' % name
    kit(name, decl, [n for n, _ in fns], tags, needs, hdr=['facts.h'])

# C09: every kit above that describes one optional type also states its size
for k_ in KITS.values():
    t_ = k_['tags']
    if t_ & {'monad', 'cmp', 'tw', 'hash', 'mv'}:
        continue
    k_['ops'].append('size_sep' if 'sep' in t_ else 'size_bit' if 'spare' in t_ else 'size_mem' if 'mem' in t_ else 'size_inp')
_sizes = [('size_blob_%d' % a, 'facts_blobs<%d, %s>();' % (a, ', '.join(str(n) for n in range(1, 70)))) for a in (1, 2, 4, 8, 16, 32)]
_NOTOPT = ['int', 'void', 'double *', 'std::optional<int>', 'std::optional<tiny::optional<int>>', 'NoOpt1', 'NoOpt2', 'tiny::optional<int> *', 'int (*)(int)', 'std::nullopt_t', 'int[3]', 'void (NoOpt1::*)()', 'NoOptF']
_sizes += [('size_not_%d' % i, 'facts_not_optional<%s>();' % t) for i, t in enumerate(_NOTOPT)]
_SEPT = ['int', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'char16_t', 'char32_t', 'wchar_t', 'std::byte', 'En', 'Eu', 'int SI::*', 'void (SI::*)()', 'std::nullptr_t',
         'std::optional<int>', 'std::optional<double>', 'std::pair<char, double>', 'std::array<bool, 4>', 'std::initializer_list<int>', 'InPair<double>', 'InPair<bool>', 'int const', 'tiny::optional<int>', 'tiny::optional<int, 3>', 'long double', 'EBs', 'float _Complex', 'SD', 'SX const', 'std::array<double, 1>', 'std::reference_wrapper<int>']
_sizes += [('size_s_%d' % i, 'facts_size<tiny::optional<%s>, false>();' % t) for i, t in enumerate(_SEPT)]
_BITT = ['bool', 'float', 'double', 'int *', 'void *', 'void const *', 'char **', 'int (*)()', 'void (*)(int) noexcept', 'bool const', 'float const', 'double volatile', 'double const volatile', 'bool volatile', 'int * const', 'std::optional<int> *', 'NoOpt1 const * volatile', 'Incomplete *', 'int (*)[4]', 'int (*)(...)']
_sizes += [('size_b_%d' % i, 'facts_size<tiny::optional<%s>, !VP_NO_BITS>();' % t) for i, t in enumerate(_BITT)]
facts_kit('sizes', _sizes, 'sizefacts', pre='enum class EBs : bool { n };\nstruct NoOpt1 { static constexpr bool is_tiny_optional = false; };\nstruct NoOpt2 { int is_compressed; };\nclass NoOptF final { int x; };\nstruct Incomplete;\n')
_MEMT = ['int *', 'double', 'bool', 'float', 'void (*)()', 'double const', 'QT', 'QN']
facts_kit('sizem', [('size_m_%d' % i, 'facts_size<tiny::optional<InPair<%s>, &InPair<%s>::m>, !VP_NO_MEMBER>();' % (t, t)) for i, t in enumerate(_MEMT)], 'sizefacts membit')
_MEMS = ['int', 'char', 'unsigned short', 'long long', 'double', 'bool', 'unsigned long']
facts_kit('sizems', [('size_ms_%d' % i, 'facts_size<tiny::optional_sentinel_via_type<InPair<%s>, std::integral_constant<int, 1>, &InPair<%s>::m>, !VP_NO_MEMBER>();' % (t, t)) for i, t in enumerate(_MEMS)], 'sizefacts')
_SENS = [('int', '-1'), ('unsigned', '7'), ('char', "'x'"), ('long long', '0'), ('unsigned long long', '1'), ('bool', 'true'), ('short', '-32768'), ('En', 'En::b'), ('double const *', 'nullptr'), ('int const', '3'), ('wchar_t', '1'), ('char32_t', '9')]
facts_kit('sizesn', [('size_n_%d' % i, 'facts_size<tiny::optional<%s, %s>, true>();' % (t, v)) for i, (t, v) in enumerate(_SENS)]
          + [('size_a_%d' % i, 'facts_size<tiny::optional_aip<%s>, true>();' % t) for i, t in enumerate(['short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'int const', 'QT'])]
          + [('size_c_0', 'facts_size<tiny::optional<QT>, true>();'), ('size_c_1', 'facts_size<tiny::optional_inplace<Blob<9, 4>, PayManip<Blob<9, 4>>>, true>();'), ('size_c_2', 'facts_size<tiny::optional_inplace<int, PayManip<int>>, true>();')], 'sizefacts')
facts_kit('sizeab', [('size_ab_%d' % i, 'facts_size<tiny::optional_aip<%s>, true>();' % t) for i, t in enumerate(['double', 'float', 'bool', 'int *', 'void (*)()', 'double const'])], 'sizefacts aipbit')

# C08
INTS = ['signed char', 'unsigned char', 'char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'char16_t', 'char32_t', 'wchar_t']
for i, T in enumerate(INTS):
    facts_kit('ir%d' % i, [('in_range_%d_%d' % (i, j), 'c_in_range<%s, %s>();' % (T, S)) for j, S in enumerate(INTS)], 'inrange internal', pre='#include "inrange.h"\n')

# C17 / C20 matrices
def _pays():
    out = []
    for cc in (0, 1, 2):
        for mc in (0, 1, 2, 3):
            for ca in (0, 1):
                for ma in (0, 1, 2, 3):
                    if (mc == 3) != (ma == 3):
                        continue
                    out.append((cc, mc, ca, ma, 0))
    for mc in (1, 2):
        for ma in (1, 2):
            for sw in (1, 2, 3):
                out.append((1, mc, 1, ma, sw))
    for sw in (1, 2, 3):
        out.append((0, 0, 0, 0, sw)); out.append((0, 1, 0, 0, sw)); out.append((1, 3, 0, 3, sw))
    return out
PAYS = _pays()
def _paykits(prefix, fn, tags):
    chunk = 14
    for c in range(0, len(PAYS), chunk):
        part = PAYS[c:c + chunk]
        pre = ''.join('VP_PAYDEF(%d, %d, %d, %d, %d)\n' % p for p in part)
        fns = []
        for p in part:
            P = 'Pay<%d, %d, %d, %d, %d>' % p
            s = '%d%d%d%d%d' % p
            fns.append(('facts_%s_sep_%s' % (prefix, s), '%s<tiny::optional<%s>, std::optional<%s>>();' % (fn, P, P)))
            fns.append(('facts_%s_inp_%s' % (prefix, s), '%s<tiny::optional_inplace<%s, PayManip<%s>>, std::optional<%s>>();' % (fn, P, P, P)))
            if not (p[0] == 0 and p[1] in (0,)):
                fns.append(('facts_%s_mem_%s' % (prefix, s), '%s<tiny::optional<%s, &%s::v, 7>, std::optional<%s>>();' % (fn, P, P, P)))
        facts_kit('%s%d' % (prefix, c // chunk), fns, tags, pre=pre)
_paykits('nx', 'facts_noexcept', 'noexceptfacts')
_paykits('av', 'facts_avail', 'availfacts')
SIMPLE = [('int', 'tiny::optional<int>'), ('int', 'tiny::optional<int, 42>'), ('double', 'tiny::optional<double>'), ('bool', 'tiny::optional<bool>'), ('int *', 'tiny::optional<int *>'), ('unsigned', 'tiny::optional_aip<unsigned>'),
          ('int const', 'tiny::optional<int const>'), ('double const', 'tiny::optional<double const>'), ('En', 'tiny::optional<En>'), ('En', 'tiny::optional<En, En::b>'),
          ('int', 'tiny::optional_sentinel_via_type<int, S7f>')]
PRE7 = 'struct S7f { static constexpr int value = 7; };\n'
facts_kit('nxs', [('facts_nxs_%d' % i, 'facts_noexcept<%s, std::optional<%s>>();' % (O, T)) for i, (T, O) in enumerate(SIMPLE)], 'noexceptfacts', pre=PRE7)
facts_kit('avs', [('facts_avs_%d' % i, 'facts_avail<%s, std::optional<%s>>();' % (O, T)) for i, (T, O) in enumerate(SIMPLE)], 'availfacts', pre=PRE7)
facts_kit('nxsm', [('facts_nxsm', 'facts_noexcept<tiny::optional<SD, &SD::m>, std::optional<SD>>();')], 'noexceptfacts membit')
facts_kit('avsm', [('facts_avsm', 'facts_avail<tiny::optional<SD, &SD::m>, std::optional<SD>>();')], 'availfacts membit')
CONVT = ['CvImpl', 'CvExpl', 'CvNoAs', 'CvTwo', 'CvList', 'CvNone', 'int', 'double', 'En', 'int *', 'CvAny', 'bool', 'int const', 'CvRef', 'CvTmpl', 'CvConv', 'void *', 'int (*)(int)']
CONVU = ['int', 'int const &', 'int &', 'short', 'double', 'ToInt', 'ToIntExpl', 'CvNone', 'char const *', 'En', 'Eu', 'std::nullptr_t', 'std::in_place_t', 'std::initializer_list<int>', 'bool', 'int const', 'int const volatile &', 'std::nullopt_t', 'int *', 'int const *', 'int (&)(int)', 'CvDer', 'CvDer const &', 'std::in_place_t const &', 'void', 'std::in_place_type_t<int>']
facts_kit('avc', [('facts_avc_%d_%d' % (i, j), 'facts_conv<tiny::optional<%s>, std::optional<%s>, %s>();' % (T, T, U)) for i, T in enumerate(CONVT) for j, U in enumerate(CONVU)], 'availfacts')
facts_kit('avi', [('facts_avi_%d_%d' % (i, j), 'facts_conv<tiny::optional_inplace<%s, NeverManip<%s>>, std::optional<%s>, %s>();' % (T, T, T, U)) for i, T in enumerate(CONVT[:4]) for j, U in enumerate(CONVU)], 'availfacts',
          pre='template <class P> struct NeverManip { static bool is_empty(P const &) noexcept { return false; } static void init_empty_flag(P &) noexcept { } static void invalidate_empty_flag(P &) noexcept { } };\n')


# deduced types, return types, hash availability
_DED = ['int', 'int const', 'int &', 'int const &', 'int const &&', 'double &', 'bool', 'char const (&)[4]', 'int (&)[2]', 'int (&)(double)', 'void (*)()', 'int * const', 'PT', 'PT const &', 'PN &', 'En', 'std::nullptr_t', 'Blob<9, 4> const &', 'int SI::*', 'QT const &', 'float volatile &']
facts_kit('avd', [('facts_avd_%d' % i, 'facts_deduce<%s>();' % t) for i, t in enumerate(_DED)]
          + [('facts_avdc_%d' % i, 'facts_deduce_copy<%s, std::optional<int>>();' % t) for i, t in enumerate(['tiny::optional<int>', 'tiny::optional<int, 42>', 'tiny::optional<double>', 'tiny::optional<PT>', 'tiny::optional_aip<unsigned>', 'tiny::optional<SI, &SI::m, 4>', 'tiny::optional<int const, 5>'])]
          + [('facts_avm_%d' % i, 'facts_make_type<%s>();' % t) for i, t in enumerate(['tiny::optional<PT>, PT', 'tiny::optional<int, 42>, int, 42', "tiny::optional<char, 'x'>, char, 'x'", 'tiny::optional<SI, &SI::m, 4>, SI, &SI::m, 4', 'tiny::optional<double>, double'])], 'availfacts')
_TYP = ['tiny::optional<int>, std::optional<int>', 'tiny::optional<int, 42>, std::optional<int>', 'tiny::optional<double const>, std::optional<double const>', 'tiny::optional<PT>, std::optional<PT>', 'tiny::optional<PX>, std::optional<PX>', 'tiny::optional<PM>, std::optional<PM>',
        'tiny::optional<PT const>, std::optional<PT const>', 'tiny::optional_inplace<PT, AbsManip<PT, K_P>>, std::optional<PT>', 'tiny::optional_inplace<PM, AbsManip<PM, K_P>>, std::optional<PM>', 'tiny::optional<QT>, std::optional<QT>', 'tiny::optional<SI, &SI::m, 4>, std::optional<SI>',
        'tiny::optional_sentinel_via_type<int, S7f>, std::optional<int>', 'tiny::optional_aip<long long>, std::optional<long long>', 'tiny::optional<int *>, std::optional<int *>', 'tiny::optional<bool>, std::optional<bool>', 'tiny::optional<std::optional<int>>, std::optional<std::optional<int>>',
        'tiny::optional<tiny::optional<bool>>, std::optional<tiny::optional<bool>>', 'tiny::optional<En, En::b>, std::optional<En>']
facts_kit('avt', [('facts_avt_%d' % i, 'facts_types<%s>();' % t) for i, t in enumerate(_TYP)], 'availfacts', pre=PRE7)
_HSH = ['tiny::optional<NoHash>', 'tiny::optional<NoHash const>', 'tiny::optional_inplace<NoHash, PayManip<NoHash>>', 'tiny::optional<NoHash, &NoHash::v, 3>', 'tiny::optional_sentinel_via_type<NoHash, std::integral_constant<int, 3>, &NoHash::v>', 'tiny::optional<tiny::optional<NoHash>>',
        'tiny::optional<int>', 'tiny::optional<int const>', 'tiny::optional<int, 42>', 'tiny::optional<int const, 42>', 'tiny::optional<double>', 'tiny::optional<bool const>', 'tiny::optional<int *>', 'tiny::optional<EnH>', 'tiny::optional<EnH, EnH::a>', 'tiny::optional_aip<unsigned>', 'tiny::optional_sentinel_via_type<long long, std::integral_constant<int, 3>>',
        'tiny::optional_inplace<short, PayManip<short>>', 'tiny::optional_inplace<short const, PayManip<short>>', 'tiny::optional<tiny::optional<int>>', 'tiny::optional<std::optional<int>>', 'tiny::optional<std::optional<NoHash>>', 'tiny::optional<std::pair<int, int>>', 'tiny::optional<std::nullptr_t>', 'tiny::optional<Blob<3, 1>>', 'tiny::optional<PM>', 'tiny::optional<std::array<int, 2>>']
facts_kit('hashf', [('hash_on_%d' % i, 'facts_hash<%s>();' % t) for i, t in enumerate(_HSH)], 'hash')


# ---------------------------------------------------------------------------------------------- selection
def header_of(op):
    for rx, h in OP_HEADER:
        if re.search(rx, op):
            return h
    return 'ops.h'


def available(op, k, cfg):
    c = CONFIGS[cfg]
    for n in k['needs']:
        if n.startswith('!'):
            if c.get(n[1:]):
                return False
        elif not c.get(n):
            return False
    for rx, n in OP_NEEDS:
        if re.search(rx, op) and not c.get(n):
            return False
    tags = k['tags']
    # with the tricks disabled there is no in-place flag to speak about
    if op in REP and 'spare' in tags and c.get('nobit'):
        return False
    if op in MEMF and c.get('nomem'):
        return False
    # a member flag by spare bits works iff the member type has spare bits
    if 'membit' in tags and c.get('nobit') and not c.get('nomem'):
        return False
    if k['name'] == 'moMT' and c.get('nobit') and not c.get('nomem'):
        return False
    if 'aipbit' in tags and c.get('nobit'):
        return False
    if op in MISUSE_STORE and 'memsent' in tags and c.get('nomem'):
        return False
    # comparing or hashing NaN is undefined under -ffast-math
    if c.get('fast') and re.search(r'^(cmp|tw|hash)', op) and (re.search(r'_(d|f|sd)(_|$)', k['name']) or k['name'].startswith('bit')):
        return False
    return True


def entries(cfg):
    for k in KITS.values():
        for op in k['ops']:
            if available(op, k, cfg):
                yield k, op


BASE_OF = [
    (r'^(ctor|make_optional|ctad)', 'C01'), (r'^assign', 'C02'), (r'^(reset|emplace|swap)', 'C03'), (r'^dtor', 'C04'), (r'^(observe|access|value)', 'C12'),
    (r'^cmp', 'C13'), (r'^tw', 'C14'), (r'^(and_then|transform|or_else|monad)', 'C15'), (r'^hash', 'C16'), (r'^misuse', 'C19'), (r'^mem_', 'C10'), (r'^in_range', 'C08'), (r'^size', 'C09'),
]


def base_of(op, k):
    if op in REP:
        return 'C06' if 'spare' in k['tags'] else 'C07'
    if op.startswith('facts_nx'):
        return 'C17'
    if op.startswith('facts_av'):
        return 'C20'
    for rx, p in BASE_OF:
        if re.search(rx, op):
            return p
    return None


MUTATING = re.compile(r'^(ctor|make_optional|ctad|assign|reset|emplace|swap|value_or|and_then|transform|or_else|dtor)')
CONSTOPS = re.compile(r'^(observe|access|value_cl|value_cr|value_or_cl|value_or_l$|value_or_clr|value_or_cr|value_or_conv|cmp|tw|hash|ctor_copy$|assign_copy|and_then_c|transform_c|or_else_c|or_else_l|rep_exact|mem_exact|ctor_value_copy|emplace_copy)')

GENERIC = r'^(post|ret|inplace|inv|life|UB|LIFETIME|ASSERT|TERMINATE|COMPILE|cover)'

# property -> (quick configs, thorough extra configs, selector(op, kit, cfgname), label regex)
def _base(p):
    return lambda op, k, c: base_of(op, k) == p
ALL = list(CONFIGS)
PROPS = {
    'C01': dict(modular=1, quick=['x20', 'x17n', 'm32', 'noub', 'fast'], sel=_base('C01'), labels=GENERIC),
    'C02': dict(modular=1, quick=['x20', 'x17n', 'm32', 'noub', 'fast'], sel=_base('C02'), labels=GENERIC),
    'C03': dict(modular=1, quick=['x20', 'x17n', 'm32', 'noub', 'fast'], sel=_base('C03'), labels=GENERIC),
    'C04': dict(modular=1, quick=['x20', 'x17n', 'm32', 'noub17d'], sel=lambda op, k, c: 'abs' in k['tags'] and not op.startswith(('misuse', 'cmp', 'hash')) , labels=r'(^|,)(life|LIFETIME|cover)|^UB: (access to an object|dereference)|^COMPILE'),
    'C05': dict(modular=1, quick=['x20', 'x17n', 'm32', 'noub17d'], sel=lambda op, k, c: 'throwing' in k['tags'] and bool(MUTATING.search(op)), labels=r'^(exc|LIFETIME|TERMINATE|NOEXCEPT|ESCAPE|cover)'),
    'C06': dict(quick=['x20', 'x17n', 'm32', 'fast', 'fast20'], sel=lambda op, k, c: 'spare' in k['tags'] and not op.startswith(('hash', 'misuse')) and (c not in ('m32', 'fast', 'fast20') or op in REP or op.startswith(('ctor', 'assign', 'swap', 'emplace'))), labels=GENERIC + r'|^FRAME'),
    'C07': dict(quick=['x20', 'x17n', 'm32', 'noub', 'fast'], sel=lambda op, k, c: 'sent' in k['tags'] and not op.startswith(('hash', 'misuse')) and (c in ('x20', 'x17n') or op in REP or op.startswith(('ctor', 'assign', 'swap', 'emplace'))), labels=GENERIC),
    'C22': dict(quick=[], thorough=[], sel=lambda op, k, c: False, labels=GENERIC),
    'C08': dict(quick=['x20'], sel=_base('C08'), labels=GENERIC),
    'C09': dict(quick=['x20', 'x17n', 'm32', 'noub', 'nobit', 'nomem', 'm32n20', 'noub17d', 'gccwa'], sel=_base('C09'), labels=r'^(size|COMPILE|cover)'),
    'C10': dict(quick=['x20', 'x17n', 'm32', 'fast'], sel=lambda op, k, c: 'mem' in k['tags'] and not op.startswith('misuse'), labels=GENERIC + r'|^FRAME'),
    'C11': dict(modular=1, quick=['x20', 'x17n', 'm32', 'noub17d'], sel=lambda op, k, c: ('cust' in k['tags'] or k['name'] in ('memT', 'memTv')) and not op.startswith('misuse'), labels=r'(^|,)(proto|inv|life|LIFETIME|cover)|^COMPILE'),
    'C12': dict(quick=['x20', 'x17n', 'm32', 'noub', 'fast'], sel=_base('C12'), labels=GENERIC),
    'C13': dict(quick=['x20', 'x17n', 'gccwa', 'm32', 'noub'], sel=_base('C13'), labels=GENERIC),
    'C14': dict(quick=['x20', 'gccwa', 'x20n', 'noub', 'm32n20'], sel=_base('C14'), labels=GENERIC),
    'C15': dict(quick=['x20', 'x17n', 'm32', 'noub'], sel=_base('C15'), labels=GENERIC),
    'C16': dict(quick=['x20', 'x17n', 'm32', 'noub', 'nobit'], sel=_base('C16'), labels=GENERIC + r'|^type'),
    'C17': dict(quick=['x20', 'x17n', 'm32'], sel=lambda op, k, c: op.startswith('facts_nx') or op == 'cmp_nullopt' or op == 'tw_nullopt' or (('nothrow' in k['tags'] or 'raw' in k['tags']) and bool(MUTATING.search(op) or op == 'observe')) and c == 'x20' or (k['name'] in ('sepA', 'sepB', 'sepT', 'cusT') and op in EMPTY_CTORS + SWAP + ['ctor_move', 'assign_move', 'assign_nullopt', 'reset', 'observe', 'dtor']), labels=r'^(noexcept|NOEXCEPT|TERMINATE|ESCAPE|cover|COMPILE)'),
    'C18': dict(quick=['x20', 'x17n', 'noub17d'], sel=lambda op, k, c: bool(CONSTOPS.search(op)), labels=r'^FRAME|^post: the source|^cover'),
    'C19': dict(quick=['x20', 'x17', 'noub17d'], sel=lambda op, k, c: op.startswith('misuse') or not op.startswith(('facts', 'in_range', 'size')), labels=r'^(misuse|ASSERT)|^cover'),
    'C20': dict(quick=['x20', 'x17n', 'm32'], sel=lambda op, k, c: op.startswith('facts_av') or (c == 'x20' and not op.startswith(('facts', 'in_range', 'size', 'misuse', 'cmp', 'tw', 'hash', 'rep', 'mem_'))), labels=r'^(avail|type|COMPILE|cover)'),
    'C21': dict(quick=['noub', 'nobit', 'nomem', 'noub17d'], sel=lambda op, k, c: not op.startswith(('facts', 'in_range')) and (c == 'noub' or bool(k['tags'] & {'spare', 'mem'}) and not op.startswith('misuse')), labels=GENERIC + r'|^(exc|proto|NOEXCEPT|ESCAPE|FRAME|noexcept|type|size)'),
}

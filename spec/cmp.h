// Contracts of the relational, three-way and hash operations.
#pragma once
#include "ops.h"

struct S7c { static constexpr int value = 7; };
#if __has_include(<compare>) && __cplusplus >= 202002L
  #include <compare>
#endif

// Payload whose six relational operators are six unrelated arbitrary predicates.  Different tags are different types.
template <int Tag>
struct CP
{
  VP_PBODY(CP, K_P, 3, false)
  VP_CC(CP, K_P, false)
  VP_MC(CP, K_P, false)
  VP_CA(CP, K_P, false)
  VP_MA(CP, K_P, false)
};
#define VP_CPOP(OP, FN)                                                                                                \
  template <int A, int B>                                                                                              \
  inline bool operator OP(CP<A> const & a, CP<B> const & b)                                                            \
  {                                                                                                                    \
    vp_count("payload comparison", 1);                                                                                 \
    VP_THROWS("payload comparison");                                                                                   \
    return (vp_uf2(FN, a.val(), b.val()) & 1) != 0;                                                                    \
  }
VP_CPOP(==, "eq")
VP_CPOP(!=, "ne")
VP_CPOP(<, "lt")
VP_CPOP(<=, "le")
VP_CPOP(>, "gt")
VP_CPOP(>=, "ge")
// Tag 1 has a registered manipulator.
template <>
struct tiny::optional_flag_manipulator<CP<1>> : AbsManip<CP<1>, K_P>
{
};
template <int Tag>
struct std::hash<CP<Tag>>
{
  std::size_t operator()(CP<Tag> const & p) const
  {
    VP_THROWS("hash");
    return static_cast<std::size_t>(vp_uf1("hash", p.val()));
  }
};

// Trivially copyable payload with padding, whose operators look at one member only.
struct SQ { char a; int m; short b; };
#define VP_SQOP(OP, FN)                                                                                                \
  inline bool operator OP(SQ const & a, SQ const & b) noexcept                                                         \
  {                                                                                                                    \
    return (vp_uf2(FN, static_cast<unsigned>(a.m), static_cast<unsigned>(b.m)) & 1) != 0;                              \
  }
VP_SQOP(==, "eq")
VP_SQOP(!=, "ne")
VP_SQOP(<, "lt")
VP_SQOP(<=, "le")
VP_SQOP(>, "gt")
VP_SQOP(>=, "ge")
struct FQ : FieldsOf<SQ, &SQ::a, &SQ::m, &SQ::b> { static constexpr u64 reserved = 5; static bool legal(u64) noexcept { return true; } };
struct FQ5 : FQ { static bool legal(u64 m) noexcept { return VP_NO_MEMBER || m != 5; } };
template <>
struct std::hash<SQ>
{
  std::size_t operator()(SQ const & p) const { return static_cast<std::size_t>(vp_uf1("hash", static_cast<unsigned>(p.m))); }
};

template <class K> inline constexpr bool is_abs = K::abstract_payload;

// The payload's own operator, as the specification sees it.
#define VP_POP(NAME, OP, FN)                                                                                           \
  template <class KA, class KB>                                                                                        \
  inline bool p_##NAME(typename KA::V a, typename KB::V b) noexcept                                                    \
  {                                                                                                                    \
    if constexpr (is_abs<KA>)                                                                                          \
      return (vp_uf2(FN, a, b) & 1) != 0;                                                                              \
    else {                                                                                                             \
      ArgMem<KA> x;                                                                                                    \
      ArgMem<KB> y;                                                                                                    \
      KA::make(x.b, a);                                                                                                \
      KB::make(y.b, b);                                                                                                \
      return x.c() OP y.c();                                                                                           \
    }                                                                                                                  \
  }
VP_POP(eq, ==, "eq")
VP_POP(ne, !=, "ne")
VP_POP(lt, <, "lt")
VP_POP(le, <=, "le")
VP_POP(gt, >, "gt")
VP_POP(ge, >=, "ge")

// P::A, P::B are kits; both operands optionals.
#define VP_CMPOO(NAME, OP, EXPECT)                                                                                     \
  template <class P>                                                                                                   \
  void c_cmp_oo_##NAME()                                                                                               \
  {                                                                                                                    \
    using A = typename P::A;                                                                                           \
    using B = typename P::B;                                                                                           \
    Mem<A> m;                                                                                                          \
    Mem<B> n;                                                                                                          \
    St<A> s;                                                                                                           \
    St<B> t;                                                                                                           \
    arb<A>(m, s);                                                                                                      \
    arb<B>(n, t);                                                                                                      \
    vp_protect(m.b, sizeof(m.b), "an operand of a comparison");                                                        \
    vp_protect(n.b, sizeof(n.b), "an operand of a comparison");                                                        \
    vp_assert((std::is_same_v<decltype(m.c() OP n.c()), bool>), "type: comparisons return bool");                      \
    bool r = false, r2 = false;                                                                                        \
    bool const ex = thrown([&] { r = m.c() OP n.c(); }) || thrown([&] { r2 = m.o() OP n.o(); });                       \
    vp_unprotect();                                                                                                    \
    bool const ae = s.e, be = t.e;                                                                                     \
    bool const both = ae && be;                                                                                        \
    bool const pay = both ? p_##NAME<A, B>(s.v, t.v) : false;                                                          \
    bool const expect = EXPECT;                                                                                        \
    vp_assert(ex || r == expect, "post: optional " #OP " optional follows the std::optional rule");                    \
    vp_assert(ex || r2 == expect, "post: optional " #OP " optional follows the std::optional rule (non-const operands)");    \
    check_state<A>(m, s.e, s.v, kSrc);                                                                                 \
    check_state<B>(n, t.e, t.v, kSrc);                                                                                 \
    vp_cover(ae ? be ? "ee" : "eo" : be ? "oe" : "oo");                                                                \
  }
VP_CMPOO(eq, ==, both ? pay : ae == be)
VP_CMPOO(ne, !=, both ? pay : ae != be)
VP_CMPOO(lt, <, both ? pay : !ae && be)
VP_CMPOO(le, <=, both ? pay : !ae)
VP_CMPOO(gt, >, both ? pay : ae && !be)
VP_CMPOO(ge, >=, both ? pay : !be)

// Both operands are the same object, or the value is the optional's own payload: identity must not matter.
#define VP_CMPSELF(NAME, OP, EXPECT)                                                                                   \
  template <class K>                                                                                                   \
  void c_cmp_self_##NAME()                                                                                             \
  {                                                                                                                    \
    Mem<K> m;                                                                                                          \
    St<K> s;                                                                                                           \
    arb<K>(m, s);                                                                                                      \
    vp_protect(m.b, sizeof(m.b), "an operand of a comparison");                                                        \
    bool r = false, ov = false, vo = false;                                                                            \
    bool const ex = thrown([&] { r = m.c() OP m.c(); })                                                                \
                    || (s.e && (thrown([&] { ov = m.c() OP * m.c(); }) || thrown([&] { vo = *m.c() OP m.c(); })));     \
    vp_unprotect();                                                                                                    \
    bool const pay = s.e ? p_##NAME<K, K>(s.v, s.v) : false;                                                           \
    vp_assert(ex || r == (s.e ? pay : (EXPECT)), "post: optional " #OP " itself follows the std::optional rule");      \
    vp_assert(ex || !s.e || (ov == pay && vo == pay), "post: optional " #OP " its own payload follows the std::optional rule"); \
    check_state<K>(m, s.e, s.v, kSrc);                                                                                 \
    vp_cover(s.e ? "engaged" : "empty");                                                                               \
  }
VP_CMPSELF(eq, ==, true)
VP_CMPSELF(ne, !=, false)
VP_CMPSELF(lt, <, false)
VP_CMPSELF(le, <=, true)
VP_CMPSELF(gt, >, false)
VP_CMPSELF(ge, >=, true)

// Optional and plain value.  P::A is the optional, P::B describes the value type (only ArgMem<B> is used).
#define VP_CMPOV(NAME, OP, E_OV, E_VO)                                                                                 \
  template <class P>                                                                                                   \
  void c_cmp_ov_##NAME()                                                                                               \
  {                                                                                                                    \
    using A = typename P::A;                                                                                           \
    using B = typename P::B;                                                                                           \
    Mem<A> m;                                                                                                          \
    ArgMem<B> n;                                                                                                       \
    St<A> s;                                                                                                           \
    arb<A>(m, s);                                                                                                      \
    typename B::V const v = B::fresh();                                                                                \
    B::make(n.b, v);                                                                                                   \
    vp_protect(m.b, sizeof(m.b), "an operand of a comparison");                                                        \
    vp_protect(n.b, sizeof(n.b), "an operand of a comparison");                                                        \
    bool ov = false, vo = false;                                                                                       \
    bool const ex = thrown([&] { ov = m.c() OP n.c(); }) || thrown([&] { vo = n.c() OP m.c(); });                      \
    vp_unprotect();                                                                                                    \
    bool const e1 = s.e ? p_##NAME<A, B>(s.v, v) : (E_OV);                                                             \
    bool const e2 = s.e ? p_##NAME<B, A>(v, s.v) : (E_VO);                                                             \
    vp_assert(ex || ov == e1, "post: optional " #OP " value follows the std::optional rule");                                \
    vp_assert(ex || vo == e2, "post: value " #OP " optional follows the std::optional rule");                                \
    check_state<A>(m, s.e, s.v, kSrc);                                                                                 \
    vp_cover(s.e ? "engaged" : "empty");                                                                               \
  }
VP_CMPOV(eq, ==, false, false)
VP_CMPOV(ne, !=, true, true)
VP_CMPOV(lt, <, true, false)
VP_CMPOV(le, <=, true, false)
VP_CMPOV(gt, >, false, true)
VP_CMPOV(ge, >=, false, true)

template <class K>
void c_cmp_nullopt()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  vp_protect(m.b, sizeof(m.b), "an operand of a comparison");
  auto const & c = m.c();
  vp_count("payload comparison", -vp_count("payload comparison", 0));
  vp_assert((c == std::nullopt) == !s.e, "post: optional == nullopt");
  vp_assert((c != std::nullopt) == s.e, "post: optional != nullopt");
  vp_assert((c < std::nullopt) == false, "post: optional < nullopt");
  vp_assert((c <= std::nullopt) == !s.e, "post: optional <= nullopt");
  vp_assert((c > std::nullopt) == s.e, "post: optional > nullopt");
  vp_assert((c >= std::nullopt) == true, "post: optional >= nullopt");
  vp_assert((std::nullopt == c) == !s.e, "post: nullopt == optional");
  vp_assert((std::nullopt != c) == s.e, "post: nullopt != optional");
  vp_assert((std::nullopt < c) == s.e, "post: nullopt < optional");
  vp_assert((std::nullopt <= c) == true, "post: nullopt <= optional");
  vp_assert((std::nullopt > c) == false, "post: nullopt > optional");
  vp_assert((std::nullopt >= c) == !s.e, "post: nullopt >= optional");
  vp_assert(vp_count("payload comparison", 0) == 0, "post: comparing with nullopt does not compare payloads");
  vp_unprotect();
  vp_assert(
      noexcept(c == std::nullopt) && noexcept(c != std::nullopt) && noexcept(c < std::nullopt)
          && noexcept(c <= std::nullopt) && noexcept(c > std::nullopt) && noexcept(c >= std::nullopt)
          && noexcept(std::nullopt == c) && noexcept(std::nullopt != c) && noexcept(std::nullopt < c)
          && noexcept(std::nullopt <= c) && noexcept(std::nullopt > c) && noexcept(std::nullopt >= c),
      "noexcept: comparisons with nullopt are noexcept");
  check_state<K>(m, s.e, s.v, kSrc);
  vp_cover(s.e ? "engaged" : "empty");
}

//------------------------------------------------------------------------------------------------ three-way
#ifdef __cpp_lib_three_way_comparison
// Payload with an arbitrary <=> (antisymmetric, as the standard demands) returning partial_ordering.
template <int Tag>
struct CT
{
  VP_PBODY(CT, K_P, 3, false)
  VP_CC(CT, K_P, false)
  VP_MC(CT, K_P, false)
  VP_CA(CT, K_P, false)
  VP_MA(CT, K_P, false)
};
template <>
struct tiny::optional_flag_manipulator<CT<1>> : AbsManip<CT<1>, K_P>
{
};
inline u64 tw(u64 a, u64 b) noexcept // 0 less, 1 equivalent, 2 greater, 3 unordered
{
  u64 const k = vp_uf2("tw", a, b) & 3;
  u64 const r = vp_uf2("tw", b, a) & 3;
  vp_assume(r == (k == 3 ? 3 : 2 - k));
  return k;
}
template <int Tag>
inline std::partial_ordering operator<=>(CT<Tag> const & a, CT<Tag> const & b)
{
  vp_count("payload comparison", 1);
  VP_THROWS("payload comparison");
  u64 const k = tw(a.val(), b.val());
  return k == 0   ? std::partial_ordering::less
         : k == 1 ? std::partial_ordering::equivalent
         : k == 2 ? std::partial_ordering::greater
                  : std::partial_ordering::unordered;
}
template <int Tag>
inline bool operator==(CT<Tag> const & a, CT<Tag> const & b)
{
  return (vp_uf2("eq", a.val(), b.val()) & 1) != 0;
}
template <class O>
inline u64 code(O const & o) noexcept
{
  if (o < 0)
    return 0;
  if (o == 0)
    return 1;
  if (o > 0)
    return 2;
  return 3;
}
template <class KA, class KB>
inline u64 p_tw(typename KA::V a, typename KB::V b) noexcept
{
  if constexpr (is_abs<KA>)
    return tw(a, b);
  else {
    ArgMem<KA> x;
    ArgMem<KB> y;
    KA::make(x.b, a);
    KB::make(y.b, b);
    return code(x.c() <=> y.c());
  }
}
template <class P>
void c_tw_oo()
{
  using A = typename P::A;
  using B = typename P::B;
  Mem<A> m;
  Mem<B> n;
  St<A> s;
  St<B> t;
  arb<A>(m, s);
  arb<B>(n, t);
  vp_protect(m.b, sizeof(m.b), "an operand of a comparison");
  vp_protect(n.b, sizeof(n.b), "an operand of a comparison");
  vp_assert(
      (std::is_same_v<decltype(m.c() <=> n.c()), std::compare_three_way_result_t<TT<A>, TT<B>>>),
      "type: <=> returns the ordering type of the payloads");
  u64 r = 9;
  bool const ex = thrown([&] { r = code(m.c() <=> n.c()); });
  vp_unprotect();
  u64 const expect = s.e && t.e ? p_tw<A, B>(s.v, t.v) : s.e == t.e ? 1 : s.e ? 2 : 0;
  vp_assert(ex || r == expect, "post: optional <=> optional follows the std::optional rule");
  check_state<A>(m, s.e, s.v, kSrc);
  check_state<B>(n, t.e, t.v, kSrc);
  vp_cover(s.e ? t.e ? "ee" : "eo" : t.e ? "oe" : "oo");
}
template <class P>
void c_tw_ov()
{
  using A = typename P::A;
  using B = typename P::B;
  Mem<A> m;
  ArgMem<B> n;
  St<A> s;
  arb<A>(m, s);
  typename B::V const v = B::fresh();
  B::make(n.b, v);
  vp_protect(m.b, sizeof(m.b), "an operand of a comparison");
  vp_protect(n.b, sizeof(n.b), "an operand of a comparison");
  vp_assert(
      (std::is_same_v<decltype(m.c() <=> n.c()), std::compare_three_way_result_t<TT<A>, TT<B>>>),
      "type: <=> returns the ordering type of the payloads");
  u64 ov = 9, vo = 9;
  bool const ex = thrown([&] { ov = code(m.c() <=> n.c()); }) || thrown([&] { vo = code(n.c() <=> m.c()); });
  vp_unprotect();
  u64 const e1 = s.e ? p_tw<A, B>(s.v, v) : 0;
  u64 const e2 = s.e ? p_tw<B, A>(v, s.v) : 2;
  vp_assert(ex || ov == e1, "post: optional <=> value follows the std::optional rule");
  vp_assert(ex || vo == e2, "post: value <=> optional follows the std::optional rule");
  check_state<A>(m, s.e, s.v, kSrc);
  vp_cover(s.e ? "engaged" : "empty");
}
template <class K>
void c_tw_self()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  vp_protect(m.b, sizeof(m.b), "an operand of a comparison");
  u64 r = 9, ov = 9;
  bool const ex = thrown([&] { r = code(m.c() <=> m.c()); }) || (s.e && thrown([&] { ov = code(m.c() <=> *m.c()); }));
  vp_unprotect();
  u64 const pay = s.e ? p_tw<K, K>(s.v, s.v) : 1;
  vp_assert(ex || r == pay, "post: optional <=> itself follows the std::optional rule");
  vp_assert(ex || !s.e || ov == pay, "post: optional <=> its own payload follows the std::optional rule");
  vp_cover(s.e ? "engaged" : "empty");
}
template <class K>
void c_tw_nullopt()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  vp_protect(m.b, sizeof(m.b), "an operand of a comparison");
  auto const & c = m.c();
  vp_assert((std::is_same_v<decltype(c <=> std::nullopt), std::strong_ordering>), "type: <=> with nullopt returns strong_ordering");
  vp_assert(code(c <=> std::nullopt) == (s.e ? 2u : 1u), "post: optional <=> nullopt");
  vp_assert(code(std::nullopt <=> c) == (s.e ? 0u : 1u), "post: nullopt <=> optional");
  vp_assert(noexcept(c <=> std::nullopt) && noexcept(std::nullopt <=> c), "noexcept: comparisons with nullopt are noexcept");
  vp_unprotect();
  vp_cover(s.e ? "engaged" : "empty");
}
#endif

//------------------------------------------------------------------------------------------------ hash
inline std::size_t hash_of_empty()
{
  return std::hash<tiny::optional<int>>{}(tiny::optional<int>());
}
template <class K>
void c_hash()
{
  using O = typename K::O;
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  vp_assert((std::is_default_constructible_v<std::hash<O>>), "type: hashing is enabled for a hashable payload");
  vp_protect(m.b, sizeof(m.b), "an optional that is hashed");
  std::size_t h = 0, h2 = 0;
  bool const ex = thrown([&] { h = std::hash<O>{}(m.c()); }) || thrown([&] { h2 = std::hash<O>{}(m.c()); });
  vp_unprotect();
  vp_assert((std::is_same_v<decltype(std::hash<O>{}(m.c())), std::size_t>), "type: the hash is a size_t");
  vp_assert(ex || h == h2, "post: hashing is deterministic");
  if (s.e) {
    std::size_t expect;
    if constexpr (K::abstract_payload)
      expect = static_cast<std::size_t>(vp_uf1("hash", s.v));
    else {
      ArgMem<K> a;
      K::make(a.b, s.v);
      expect = std::hash<TT<K>>{}(a.c());
    }
    vp_assert(ex || h == expect, "post: a non-empty optional hashes like its payload");
  }
  else
    vp_assert(h == hash_of_empty(), "post: all empty optionals hash to the same value");
  check_state<K>(m, s.e, s.v, kSrc);
  vp_cover(s.e ? "engaged" : "empty");
}
// Equal optionals of one type hash equally.
template <class K>
void c_hash_equal()
{
  using O = typename K::O;
  Mem<K> m, n;
  St<K> s, t;
  arb<K>(m, s);
  arb<K>(n, t);
  if (m.c() == n.c()) {
    vp_assert(std::hash<O>{}(m.c()) == std::hash<O>{}(n.c()), "post: equal optionals hash equally");
    vp_cover("equal");
  }
  vp_cover("end");
}

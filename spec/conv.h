// Contracts of construction, assignment, emplace and value_or with arguments of another built-in type: the payload
// is exactly the argument converted by the rules of the language.
#pragma once
#include "ops.h"

// K: a KRaw kit, A: how to get an argument
template <class K_, class A_>
struct WithConv : K_
{
  using Arg = A_;
};

template <class U_>
struct AInt // integers, pointers: all bit patterns
{
  using U = U_;
  static U get() noexcept
  {
    u64 const v = vp_nondet("argument", 8 * sizeof(U));
    U u;
    vp_put<U>(&u, v);
    return u;
  }
};
struct AFlt
{
  using U = float;
  static float get() noexcept
  {
    u64 const v = vp_nondet("argument", 32);
    vp_assume((v & 0x7f800000u) != 0x7f800000u); // what becomes of the payload of a NaN is up to the hardware
    float u;
    vp_put<float>(&u, v);
    return u;
  }
};
struct ANull
{
  using U = std::nullptr_t;
  static U get() noexcept { return nullptr; }
};
struct CvBase1 { int x; };
struct CvBase2 { int y; };
struct CvDer12 : CvBase1, CvBase2 { };

#define VP_CV(NAME, MAKE)                                                                                              \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    using O = typename K::O;                                                                                           \
    using T = std::remove_cv_t<typename K::T>;                                                                         \
    using U = typename K::Arg::U;                                                                                      \
    U u = K::Arg::get();                                                                                               \
    U const & c = u;                                                                                                   \
    T const want = static_cast<T>(u);                                                                                  \
    u64 const w = vp_bits(want);                                                                                       \
    vp_assume(K::legal(w));                                                                                            \
    Mem<K> m;                                                                                                          \
    St<K> s{};                                                                                                         \
    bool const first = vp_bool("first");                                                                               \
    (void)c;                                                                                                           \
    (void)first;                                                                                                       \
    MAKE;                                                                                                              \
    check_state<K>(m, true, w);                                                                                        \
    vp_assert(static_cast<T>(u) == want, "post: the argument is unchanged");                                           \
    vp_cover("end");                                                                                                   \
  }
#define VP_AT static_cast<void *>(m.b)
VP_CV(ctor_cvt, raw<K>(m); if (first)::new (VP_AT) O(c); else ::new (VP_AT) O(static_cast<U &&>(u)))
VP_CV(ctor_cvt_inplace, raw<K>(m); if (first)::new (VP_AT) O(std::in_place, c); else ::new (VP_AT) O(std::in_place, static_cast<U &&>(u)))
VP_CV(assign_cvt, (arb<K>(m, s), first ? (void)(m.o() = c) : (void)(m.o() = static_cast<U &&>(u))); vp_cover(s.e ? "engaged" : "empty"))
VP_CV(emplace_cvt, (arb<K>(m, s), first ? (void)m.o().emplace(c) : (void)m.o().emplace(static_cast<U &&>(u))); vp_cover(s.e ? "engaged" : "empty"))

template <class K>
void c_value_or_cvt()
{
  using T = std::remove_cv_t<typename K::T>;
  using U = typename K::Arg::U;
  U u = K::Arg::get();
  U const & c = u;
  T const want = static_cast<T>(u);
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  bool const first = vp_bool("first");
  T const r = first ? m.c().value_or(c) : m.c().value_or(static_cast<U &&>(u));
  u64 const w = vp_bits(want);
  vp_assert(vp_bits(r) == (s.e ? s.v : w), "post: value_or returns the contained value, or else the converted default");
  check_state<K>(m, s.e, s.v, kSrc);
  vp_cover(s.e ? "engaged" : "empty");
}

// Arrays and functions turn into pointers.
inline int cvFn(double) { return 0; }
inline char cvText[4] = "abc";
template <class K>
void c_ctor_cvt_decay()
{
  Mem<K> m;
  St<K> s;
  vp_cover("end");
  auto check = [&](void const * want) {
    vp_assert(m.c().has_value(), kPost.state);
    vp_assert(reinterpret_cast<void const *>(*m.c()) == want, kPost.value);
  };
  using O = typename K::O;
  if constexpr (std::is_function_v<std::remove_pointer_t<typename K::T>>) {
    ::new (static_cast<void *>(m.b)) O(cvFn);
    check(reinterpret_cast<void const *>(&cvFn));
    arb<K>(m, s);
    m.o() = cvFn;
    check(reinterpret_cast<void const *>(&cvFn));
    arb<K>(m, s);
    m.o().emplace(cvFn);
    check(reinterpret_cast<void const *>(&cvFn));
    auto d = tiny::make_optional(cvFn);
    vp_assert(d.has_value() && *d == &cvFn, kPost.value);
  }
  else {
    ::new (static_cast<void *>(m.b)) O(cvText);
    check(cvText);
    arb<K>(m, s);
    m.o() = cvText;
    check(cvText);
    arb<K>(m, s);
    m.o().emplace(cvText);
    check(cvText);
    auto d = tiny::make_optional(cvText);
    vp_assert(d.has_value() && *d == cvText, kPost.value);
    arb_in<K>(m, s, false);
    vp_assert(m.c().value_or(cvText) == cvText, "post: value_or returns the contained value, or else the converted default");
  }
}

// Contracts of the operations of tiny optionals, generic in the kit.
#pragma once
#include "kits.h"

struct Labels
{
  const char *state, *boolop, *value, *place, *ghostE, *ghostF;
};
inline constexpr Labels kPost{
    "post: has_value() has the specified state",
    "post: conversion to bool agrees with has_value()",
    "post: the contained payload has exactly the specified value",
    "post: the payload lives inside the optional",
    "life: an empty optional contains no payload object (and exactly its flag object)",
    "life: a non-empty optional contains exactly one live payload and no flag object"};
inline constexpr Labels kExc{
    "exc: has_value() has the specified state after an exception",
    "exc: conversion to bool agrees with has_value() after an exception",
    "exc: the payload value after an exception",
    "exc: the payload lives inside the optional after an exception",
    "exc,life: an empty optional contains no payload object after an exception",
    "exc,life: a non-empty optional contains exactly one live payload after an exception"};
inline constexpr Labels kSrc{
    "post: the source optional keeps its state",
    "post: conversion to bool of the source agrees",
    "post: the source payload has the specified value",
    "post: the source payload lives inside the source",
    "life: the empty source contains no payload object",
    "life: the non-empty source contains exactly one live payload"};

template <class K>
struct Mem
{
  alignas(typename K::O) unsigned char b[sizeof(typename K::O)]; // exactly the optional: any write beyond it is out of bounds
  typename K::O & o() noexcept { return *reinterpret_cast<typename K::O *>(b); }
  typename K::O const & c() const noexcept { return *reinterpret_cast<typename K::O const *>(b); }
};

template <class K>
struct ArgMem
{
  alignas(typename K::T) unsigned char b[sizeof(typename K::T)];
  using U = std::remove_cv_t<typename K::T>;
  U & t() noexcept { return *reinterpret_cast<U *>(b); }
  U const & c() noexcept { return *reinterpret_cast<U const *>(b); }
};

template <class K>
struct St
{
  bool e;
  typename K::V v;
};

// Arbitrary optional: arbitrary storage bytes satisfying the representation invariant with abstract state (e, v).
template <class K>
inline void arb(Mem<K> & m, St<K> & s) noexcept
{
  s.v = K::fresh();
  s.e = vp_bool("engaged");
  K::establish(m.b, s.e, s.v);
}
template <class K>
inline void arb_in(Mem<K> & m, St<K> & s, bool e) noexcept
{
  s.v = K::fresh();
  s.e = e;
  K::establish(m.b, e, s.v);
}

template <class K>
inline void raw(Mem<K> & m) noexcept
{
  vp_havoc(m.b, sizeof(m.b));
}

template <class K>
inline void check_state(Mem<K> & m, bool e, typename K::V v, Labels const & l = kPost) noexcept
{
  auto const & o = m.c();
  vp_assert(o.has_value() == e, l.state);
  vp_assert(static_cast<bool>(o) == e, l.boolop);
  if (e) {
    auto const & t = *o;
    auto const off = reinterpret_cast<unsigned char const *>(
                         const_cast<void const *>(static_cast<void const volatile *>(std::addressof(t))))
                     - m.b;
    vp_assert(off >= 0 && off + static_cast<std::ptrdiff_t>(sizeof(t)) <= static_cast<std::ptrdiff_t>(sizeof(m.b)), l.place);
    vp_assert(K::same(K::get(const_cast<std::remove_cv_t<typename K::T> const &>(t)), v), l.value);
    K::full_ghost(m.b, l.ghostF);
  }
  else {
    K::empty_ghost(m.b, l.ghostE);
  }
}
// Only the state, value unspecified.
template <class K>
inline void check_engaged(Mem<K> & m, bool e, Labels const & l = kPost) noexcept
{
  auto const & o = m.c();
  vp_assert(o.has_value() == e, l.state);
  vp_assert(static_cast<bool>(o) == e, l.boolop);
  if (e) {
    K::get(const_cast<std::remove_cv_t<typename K::T> const &>(*o));
    K::full_ghost(m.b, l.ghostF);
  }
  else
    K::empty_ghost(m.b, l.ghostE);
}
// No optional object exists in this memory (any more / after a failed construction).
template <class K>
inline void check_gone(Mem<K> & m, const char * l = "life: no payload or flag object is left behind") noexcept
{
  vp_assert(vp_live_in(m.b, sizeof(m.b), -1) == 0, l);
}

template <class F>
inline bool thrown(F && f) noexcept
{
  try {
    f();
    return false;
  }
  catch (VpEx const & ex) {
    vp_assert(ex.id == 7, "exc: the original exception reaches the caller");
    return true;
  }
}

// Payloads whose operations are counted.
template <class K>
constexpr bool counted() noexcept
{
  return K::abstract_payload && std::is_same_v<typename K::V, u64>;
}
template <class K>
constexpr bool counted_dtor()
{
  if constexpr (counted<K>())
    return K::counts_dtor;
  else
    return false;
}
inline void counts_reset() noexcept
{
  vp_count("ctor", -vp_count("ctor", 0));
  vp_count("cctor", -vp_count("cctor", 0));
  vp_count("mctor", -vp_count("mctor", 0));
  vp_count("cassign", -vp_count("cassign", 0));
  vp_count("massign", -vp_count("massign", 0));
  vp_count("vassign", -vp_count("vassign", 0));
  vp_count("dtor", -vp_count("dtor", 0));
}
inline void check_built_once(const char * l) noexcept
{
  int const a = vp_count("cassign", 0) + vp_count("massign", 0) + vp_count("vassign", 0);
  int const c = vp_count("ctor", 0) + vp_count("cctor", 0) + vp_count("mctor", 0);
  vp_assert(a == 0 && c == 1, l);
}

template <class K>
using TT = std::remove_cv_t<typename K::T>;

template <class K>
inline void final_dtor(Mem<K> & m) noexcept
{
  using O = typename K::O;
  m.o().~O();
  check_gone<K>(m);
}

//------------------------------------------------------------------------------------------------ construction
template <class K>
void c_ctor_default()
{
  using O = typename K::O;
  Mem<K> m;
  raw<K>(m);
  ::new (static_cast<void *>(m.b)) O();
  check_state<K>(m, false, {});
  final_dtor<K>(m);
  vp_cover("end");
}
template <class K>
void c_ctor_brace()
{
  using O = typename K::O;
  Mem<K> m;
  raw<K>(m);
  ::new (static_cast<void *>(m.b)) O{};
  check_state<K>(m, false, {});
  vp_cover("end");
}
template <class K>
void c_ctor_nullopt()
{
  using O = typename K::O;
  Mem<K> m;
  raw<K>(m);
  ::new (static_cast<void *>(m.b)) O(std::nullopt);
  check_state<K>(m, false, {});
  vp_cover("end");
}

#define VP_CTOR_FROM(NAME, EXPR, MOVES)                                                                                \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    using O = typename K::O;                                                                                           \
    using T [[maybe_unused]] = typename K::T;                                                                          \
    Mem<K> m;                                                                                                          \
    ArgMem<K> am;                                                                                                      \
    auto const v = K::fresh();                                                                                         \
    raw<K>(m);                                                                                                         \
    K::make(am.b, v);                                                                                                  \
    auto & arg = am.t();                                                                                               \
    counts_reset();                                                                                                    \
    if (!(MOVES)) vp_protect(am.b, sizeof(am.b), "the argument of a copying constructor");                             \
    bool const ex = thrown([&] { ::new (static_cast<void *>(m.b)) O EXPR; });                                          \
    vp_unprotect();                                                                                                    \
    if (!ex) {                                                                                                         \
      if constexpr (counted<K>()) check_built_once("inplace: exactly one payload is constructed, directly from the argument"); \
      check_state<K>(m, true, v);                                                                                      \
      vp_assert(K::same(K::get(arg), (MOVES) ? K::moved(v) : v), "post: the constructor argument is only moved from if passed as rvalue"); \
      vp_cover("normal");                                                                                              \
    }                                                                                                                  \
    else                                                                                                               \
      check_gone<K>(m, "exc,life: a failed construction leaves no object behind");                                     \
    vp_cover("end");                                                                                                   \
  }
VP_CTOR_FROM(ctor_value_copy, (std::as_const(arg)), false)
VP_CTOR_FROM(ctor_value_lref, (arg), false)
VP_CTOR_FROM(ctor_value_move, (std::move(arg)), true)
VP_CTOR_FROM(ctor_inplace_copy, (std::in_place, std::as_const(arg)), false)
VP_CTOR_FROM(ctor_inplace_move, (std::in_place, std::move(arg)), true)
VP_CTOR_FROM(make_optional_copy, (tiny::make_optional(std::as_const(arg))), false)
VP_CTOR_FROM(make_optional_move, (tiny::make_optional(std::move(arg))), true)
VP_CTOR_FROM(make_optional_args, (tiny::make_optional<T>(std::move(arg))), true)
VP_CTOR_FROM(ctad_copy, (tiny::optional{std::as_const(arg)}), false)

// make_optional with an explicit sentinel or member (K::mk, see WithMk).
VP_CTOR_FROM(make_optional_s_copy, (K::mk(std::as_const(arg))), false)
VP_CTOR_FROM(make_optional_s_move, (K::mk(std::move(arg))), true)
template <class K, auto... S>
struct WithMk : K
{
  template <class A>
  static typename K::O mk(A && a)
  {
    return tiny::make_optional<typename K::T, S...>(std::forward<A>(a));
  }
};

// Construction of a class payload from other arguments.
#define VP_CTOR_ARGS(NAME, EXPR, VALUE)                                                                                \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    using O = typename K::O;                                                                                           \
    using T [[maybe_unused]] = typename K::T;                                                                          \
    Mem<K> m;                                                                                                          \
    u64 x = vp_nondet("x", 64), y = vp_nondet("y", 64);                                                                \
    (void)y;                                                                                                           \
    raw<K>(m);                                                                                                         \
    counts_reset();                                                                                                    \
    bool const ex = thrown([&] { ::new (static_cast<void *>(m.b)) O EXPR; });                                          \
    if (!ex) {                                                                                                         \
      if constexpr (counted<K>()) check_built_once("inplace: exactly one payload is constructed, directly from the arguments"); \
      check_state<K>(m, true, VALUE);                                                                                  \
      vp_cover("normal");                                                                                              \
    }                                                                                                                  \
    else                                                                                                               \
      check_gone<K>(m, "exc,life: a failed construction leaves no object behind");                                     \
    vp_cover("end");                                                                                                   \
  }
#define VP_ILV(a, b, y) vp_uf2("il", vp_uf2("il0", 2, (u64)(unsigned)(a)), vp_uf2("il1", (u64)(unsigned)(b), (y)))
VP_CTOR_ARGS(ctor_conv, (x), K::conv(x))
VP_CTOR_ARGS(ctor_inplace0, (std::in_place), 4711)
VP_CTOR_ARGS(ctor_inplace1, (std::in_place, x), K::conv(x))
VP_CTOR_ARGS(ctor_inplace2, (std::in_place, x, y), vp_uf2("pair", x, y))
VP_CTOR_ARGS(ctor_inplace_il, (std::in_place, {(int)x, 5}, y), VP_ILV((int)x, 5, y))
VP_CTOR_ARGS(make_optional_pair, (tiny::make_optional<T>(x, y)), vp_uf2("pair", x, y))
VP_CTOR_ARGS(make_optional_il, (tiny::make_optional<T>({(int)x, 5}, y)), VP_ILV((int)x, 5, y))
VP_CTOR_ARGS(make_optional_none, (tiny::make_optional<T>()), 4711)

template <class K>
void c_ctor_copy()
{
  using O = typename K::O;
  Mem<K> m, n;
  St<K> s;
  arb<K>(n, s);
  raw<K>(m);
  vp_protect(n.b, sizeof(n.b), "the source of a copy construction");
  bool const ex = thrown([&] { ::new (static_cast<void *>(m.b)) O(n.c()); });
  vp_unprotect();
  if (!ex) {
    check_state<K>(m, s.e, s.v);
    vp_cover(s.e ? "normal, engaged" : "normal, empty");
  }
  else
    check_gone<K>(m, "exc,life: a failed construction leaves no object behind");
  check_state<K>(n, s.e, s.v, kSrc);
  vp_cover("end");
}
template <class K>
void c_ctor_copy_nonconst()
{
  using O = typename K::O;
  Mem<K> m, n;
  St<K> s;
  arb<K>(n, s);
  raw<K>(m);
  bool const ex = thrown([&] { ::new (static_cast<void *>(m.b)) O(n.o()); });
  if (!ex)
    check_state<K>(m, s.e, s.v);
  else
    check_gone<K>(m, "exc,life: a failed construction leaves no object behind");
  check_state<K>(n, s.e, s.v, kSrc);
  vp_cover("end");
}
template <class K>
void c_ctor_move()
{
  using O = typename K::O;
  Mem<K> m, n;
  St<K> s;
  arb<K>(n, s);
  raw<K>(m);
  bool const ex = thrown([&] { ::new (static_cast<void *>(m.b)) O(std::move(n.o())); });
  if (!ex) {
    check_state<K>(m, s.e, s.v);
    check_state<K>(n, s.e, K::moved(s.v), kSrc);
    vp_cover(s.e ? "normal, engaged" : "normal, empty");
  }
  else {
    check_gone<K>(m, "exc,life: a failed construction leaves no object behind");
    check_engaged<K>(n, s.e, kExc);
  }
  vp_cover("end");
}
template <class K>
void c_dtor()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  vp_count("dtor", -vp_count("dtor", 0));
  final_dtor<K>(m);
  if constexpr (counted_dtor<K>())
    vp_assert(vp_count("dtor", 0) == (s.e ? 1 : 0), "life: the destructor destroys the payload exactly once iff there is one");
  vp_cover(s.e ? "engaged" : "empty");
}

//------------------------------------------------------------------------------------------------ assignment
template <class K>
void c_assign_nullopt()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  auto & r = (m.o() = std::nullopt);
  vp_assert(&r == &m.o(), "ret: assignment returns *this");
  vp_assert((std::is_same_v<decltype(m.o() = std::nullopt), typename K::O &>), "type: assignment returns a reference to the optional type");
  check_state<K>(m, false, {});
  vp_cover(s.e ? "engaged" : "empty");
}
template <class K>
void c_assign_brace()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  bool const ex = thrown([&] {
    auto & r = (m.o() = {});
    vp_assert(&r == &m.o(), "ret: assignment returns *this");
  });
  if (!ex) {
    check_state<K>(m, false, {});
    vp_cover("normal");
  }
  vp_cover("end");
}

// Assigned in place if there was a payload, constructed otherwise.
template <class K>
inline void check_inplace(bool e) noexcept
{
  if constexpr (counted<K>()) {
    int const a = vp_count("cassign", 0) + vp_count("massign", 0) + vp_count("vassign", 0);
    int const c = vp_count("ctor", 0) + vp_count("cctor", 0) + vp_count("mctor", 0);
    int const d = vp_count("dtor", 0);
    if (e)
      vp_assert(a == 1 && c == 0 && d == 0, "inplace: an existing payload is assigned, not re-created");
    else
      vp_assert(a == 0 && c == 1 && d == 0, "inplace: a missing payload is constructed, not assigned");
  }
}

#define VP_ASSIGN_VALUE(NAME, EXPR, MOVES)                                                                             \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    Mem<K> m;                                                                                                          \
    St<K> s;                                                                                                           \
    ArgMem<K> am;                                                                                                      \
    arb<K>(m, s);                                                                                                      \
    auto const v = K::fresh();                                                                                         \
    K::make(am.b, v);                                                                                                  \
    auto & arg = am.t();                                                                                               \
    counts_reset();                                                                                                    \
    if (!(MOVES)) vp_protect(am.b, sizeof(am.b), "the right hand side of a copying assignment");                       \
    bool const ex = thrown([&] {                                                                                       \
      auto & r = (m.o() = EXPR);                                                                                       \
      vp_assert((std::is_same_v<decltype(m.o() = EXPR), typename K::O &>), "type: assignment returns a reference to the optional type");\
      vp_assert(&r == &m.o(), "ret: assignment returns *this");                                                        \
    });                                                                                                                \
    vp_unprotect();                                                                                                    \
    if (!ex) {                                                                                                         \
      check_inplace<K>(s.e);                                                                                           \
      check_state<K>(m, true, v);                                                                                      \
      vp_assert(K::same(K::get(arg), (MOVES) ? K::moved(v) : v), "post: the assigned value is only moved from if passed as rvalue"); \
      vp_cover(s.e ? "normal, engaged" : "normal, empty");                                                             \
    }                                                                                                                  \
    else                                                                                                               \
      check_engaged<K>(m, s.e, kExc);                                                                                  \
    vp_cover("end");                                                                                                   \
  }
VP_ASSIGN_VALUE(assign_value_copy, std::as_const(arg), false)
VP_ASSIGN_VALUE(assign_value_lref, arg, false)
VP_ASSIGN_VALUE(assign_value_move, std::move(arg), true)

template <class K>
void c_assign_conv()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  u64 const x = vp_nondet("x", 64);
  counts_reset();
  bool const ex = thrown([&] {
    auto & r = (m.o() = x);
    vp_assert(&r == &m.o(), "ret: assignment returns *this");
  });
  if (!ex) {
    check_inplace<K>(s.e);
    check_state<K>(m, true, s.e ? K::aconv(x) : K::conv(x));
    vp_cover(s.e ? "normal, engaged" : "normal, empty");
  }
  else
    check_engaged<K>(m, s.e, kExc);
  vp_cover("end");
}
template <class K>
void c_assign_copy()
{
  Mem<K> m, n;
  St<K> s, t;
  arb<K>(m, s);
  arb<K>(n, t);
  counts_reset();
  vp_protect(n.b, sizeof(n.b), "the source of a copy assignment");
  bool const ex = thrown([&] {
    auto & r = (m.o() = n.c());
    vp_assert((std::is_same_v<decltype(m.o() = n.c()), typename K::O &>), "type: assignment returns a reference to the optional type");
    vp_assert(&r == &m.o(), "ret: assignment returns *this");
  });
  vp_unprotect();
  if (!ex) {
    if (t.e)
      check_inplace<K>(s.e);
    check_state<K>(m, t.e, t.v);
    vp_cover(s.e ? t.e ? "ee" : "eo" : t.e ? "oe" : "oo");
  }
  else
    check_engaged<K>(m, s.e, kExc);
  check_state<K>(n, t.e, t.v, kSrc);
  vp_cover("end");
}
template <class K>
void c_assign_move()
{
  Mem<K> m, n;
  St<K> s, t;
  arb<K>(m, s);
  arb<K>(n, t);
  counts_reset();
  bool const ex = thrown([&] {
    auto & r = (m.o() = std::move(n.o()));
    vp_assert((std::is_same_v<decltype(m.o() = std::move(n.o())), typename K::O &>), "type: assignment returns a reference to the optional type");
    vp_assert(&r == &m.o(), "ret: assignment returns *this");
  });
  if (!ex) {
    if (t.e)
      check_inplace<K>(s.e);
    check_state<K>(m, t.e, t.v);
    check_state<K>(n, t.e, K::moved(t.v), kSrc);
    vp_cover(s.e ? t.e ? "ee" : "eo" : t.e ? "oe" : "oo");
  }
  else {
    check_engaged<K>(m, s.e, kExc);
    check_engaged<K>(n, t.e, kExc);
  }
  vp_cover("end");
}
template <class K>
void c_assign_self_copy()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  auto & alias = m.o();
  bool const ex = thrown([&] {
    auto & r = (m.o() = std::as_const(alias));
    vp_assert(&r == &m.o(), "ret: assignment returns *this");
  });
  if (!ex)
    check_state<K>(m, s.e, s.v);
  else
    check_engaged<K>(m, s.e, kExc);
  vp_cover("end");
}
template <class K>
void c_assign_self_move()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  auto & alias = m.o();
  bool const ex = thrown([&] {
    auto & r = (m.o() = std::move(alias));
    vp_assert(&r == &m.o(), "ret: assignment returns *this");
  });
  if (!ex)
    check_state<K>(m, s.e, s.v); // the abstract payload's self-move keeps its value, so the optional must, too
  else
    check_engaged<K>(m, s.e, kExc);
  vp_cover("end");
}
// o = std::move(*o)
template <class K>
void c_assign_own_payload_move()
{
  Mem<K> m;
  St<K> s;
  arb_in<K>(m, s, true);
  bool const ex = thrown([&] { m.o() = *std::move(m.o()); });
  if (!ex)
    check_state<K>(m, true, s.v); // the abstract payload's self-move keeps its value
  else
    check_engaged<K>(m, true, kExc);
  vp_cover("end");
}
// o = *o: the right hand side is the optional's own payload.
template <class K>
void c_assign_own_payload()
{
  Mem<K> m;
  St<K> s;
  arb_in<K>(m, s, true);
  bool const ex = thrown([&] { m.o() = *m.c(); });
  if (!ex)
    check_state<K>(m, true, s.v);
  else
    check_engaged<K>(m, true, kExc);
  vp_cover("end");
}

//------------------------------------------------------------------------------------------------ reset, emplace, swap
template <class K>
void c_reset()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  counts_reset();
  m.o().reset();
  check_state<K>(m, false, {});
  if constexpr (counted_dtor<K>())
    vp_assert(vp_count("dtor", 0) == (s.e ? 1 : 0), "life: reset() destroys the payload exactly once iff there is one");
  vp_cover(s.e ? "engaged" : "empty");
}
template <class K>
inline void check_ref(Mem<K> & m, void const volatile * r) noexcept
{
  vp_assert(r == static_cast<void const volatile *>(std::addressof(*m.c())), "ret: emplace returns a reference to the new payload");
}
#define VP_EMPLACE(NAME, SETUP, EXPR, VALUE)                                                                           \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    Mem<K> m;                                                                                                          \
    St<K> s;                                                                                                           \
    ArgMem<K> am;                                                                                                      \
    (void)am;                                                                                                          \
    arb<K>(m, s);                                                                                                      \
    SETUP;                                                                                                             \
    counts_reset();                                                                                                    \
    void const volatile * r = nullptr;                                                                                 \
    bool const ex = thrown([&] {                                                                                       \
      auto & p = m.o().emplace EXPR;                                                                                   \
      vp_assert((std::is_same_v<decltype(m.o().emplace EXPR), typename K::T &>), "type: emplace returns a reference to the payload type");\
      r = std::addressof(p);                                                                                           \
    });                                                                                                                \
    if (!ex) {                                                                                                         \
      if constexpr (counted<K>()) {                                                                                    \
        if constexpr (K::counts_dtor)                                                                                  \
          vp_assert(vp_count("dtor", 0) == (s.e ? 1 : 0), "life: emplace() destroys the old payload exactly once");    \
        check_built_once("inplace: emplace() constructs exactly one new payload from its arguments");                  \
      }                                                                                                                \
      check_state<K>(m, true, VALUE);                                                                                  \
      check_ref<K>(m, r);                                                                                              \
      vp_cover(s.e ? "normal, engaged" : "normal, empty");                                                             \
    }                                                                                                                  \
    else                                                                                                               \
      check_state<K>(m, false, {}, kExc);                                                                              \
    vp_cover("end");                                                                                                   \
  }
VP_EMPLACE(emplace_copy, auto const v = K::fresh(); K::make(am.b, v); auto & arg = am.t(), (std::as_const(arg)), v)
VP_EMPLACE(emplace_move, auto const v = K::fresh(); K::make(am.b, v); auto & arg = am.t(), (std::move(arg)), v)
VP_EMPLACE(emplace_none, , (), 4711)
VP_EMPLACE(emplace_conv, u64 x = vp_nondet("x", 64), (x), K::conv(x))
VP_EMPLACE(emplace_pair, u64 x = vp_nondet("x", 64); u64 y = vp_nondet("y", 64), (x, y), vp_uf2("pair", x, y))
VP_EMPLACE(emplace_il, u64 x = vp_nondet("x", 64); u64 y = vp_nondet("y", 64), ({(int)x, 5}, y), VP_ILV((int)x, 5, y))

#define VP_SWAPC(NAME, EXPR)                                                                                           \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    Mem<K> m, n;                                                                                                       \
    St<K> s, t;                                                                                                        \
    arb<K>(m, s);                                                                                                      \
    arb<K>(n, t);                                                                                                      \
    bool const ex = thrown([&] {                                                                                       \
      using std::swap;                                                                                                 \
      EXPR;                                                                                                            \
    });                                                                                                                \
    if (!ex) {                                                                                                         \
      check_state<K>(m, t.e, t.v);                                                                                     \
      check_state<K>(n, s.e, s.v);                                                                                     \
      vp_cover(s.e ? t.e ? "ee" : "eo" : t.e ? "oe" : "oo");                                                           \
    }                                                                                                                  \
    else {                                                                                                             \
      check_engaged<K>(m, s.e, kExc);                                                                                  \
      check_engaged<K>(n, t.e, kExc);                                                                                  \
      if (s.e != t.e && std::is_same_v<typename K::V, u64>) { /* composite payloads may be half moved */               \
        if (s.e)                                                                                                       \
          check_state<K>(m, true, s.v, kExc);                                                                          \
        else                                                                                                           \
          check_state<K>(n, true, t.v, kExc);                                                                          \
      }                                                                                                                \
    }                                                                                                                  \
    vp_cover("end");                                                                                                   \
  }
VP_SWAPC(swap_member, m.o().swap(n.o()))
VP_SWAPC(swap_free, swap(m.o(), n.o()))
template <class K>
void c_swap_self()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  bool const ex = thrown([&] { m.o().swap(m.o()); });
  if (!ex)
    check_state<K>(m, s.e, s.v);
  else
    check_engaged<K>(m, s.e, kExc);
  vp_cover("end");
}

//------------------------------------------------------------------------------------------------ neighbours
// Another object may live in the tail padding of an optional or directly behind it; no operation may touch it.
template <class K>
struct TailD : K::O
{
  unsigned char tail;
};
template <class K>
struct TailMem
{
  alignas(TailD<K>) unsigned char b[sizeof(TailD<K>)];
  typename K::O & o() noexcept { return *reinterpret_cast<TailD<K> *>(b); }
  unsigned char & tail() noexcept { return reinterpret_cast<TailD<K> *>(b)->tail; }
};
template <class K>
inline unsigned char tail_arb(TailMem<K> & m, St<K> & s, bool any = true) noexcept
{
  s.v = K::fresh();
  s.e = any ? vp_bool("engaged") : true;
  vp_havoc(m.b, sizeof(m.b));
  K::establish(m.b, s.e, s.v);
  auto const t = static_cast<unsigned char>(vp_nondet("neighbour", 8));
  m.tail() = t;
  return t;
}
#define VP_TAIL(NAME, SETUP, EXPR)                                                                                     \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    TailMem<K> m, n;                                                                                                   \
    St<K> s, t;                                                                                                        \
    ArgMem<K> am;                                                                                                      \
    (void)am;                                                                                                          \
    auto const tm = tail_arb<K>(m, s);                                                                                 \
    auto const tn = tail_arb<K>(n, t);                                                                                 \
    SETUP;                                                                                                             \
    auto & o = m.o();                                                                                                  \
    auto & p = n.o();                                                                                                  \
    (void)p;                                                                                                           \
    bool const ex [[maybe_unused]] = thrown([&] { EXPR; });                                                            \
    vp_assert(m.tail() == tm, "post: no other object is affected (neighbour of the optional)");                        \
    vp_assert(n.tail() == tn, "post: no other object is affected (neighbour of the other operand)");                   \
    vp_cover("end");                                                                                                   \
  }
#define VP_TAIL_ARG auto const v = K::fresh(); K::make(am.b, v); auto & arg = am.t()
VP_TAIL(reset_tail, , o.reset())
VP_TAIL(assign_tail_nullopt, , o = std::nullopt)
VP_TAIL(assign_tail_copy, , o = std::as_const(p))
VP_TAIL(assign_tail_move, , o = std::move(p))
VP_TAIL(assign_tail_value, VP_TAIL_ARG, o = std::as_const(arg))
VP_TAIL(assign_tail_rvalue, VP_TAIL_ARG, o = std::move(arg))
VP_TAIL(emplace_tail, VP_TAIL_ARG, o.emplace(std::as_const(arg)))
VP_TAIL(swap_tail, , o.swap(p))

//------------------------------------------------------------------------------------------------ access
template <class K>
inline void prot(Mem<K> & m) noexcept
{
  vp_protect(m.b, sizeof(m.b), "an optional that is only read");
}
template <class K>
void c_observe()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  prot<K>(m);
  vp_assert(noexcept(m.c().has_value()) && noexcept(static_cast<bool>(m.c())), "noexcept: has_value() and conversion to bool are noexcept");
  vp_assert(m.c().has_value() == s.e, "post: has_value() reports the state");
  vp_assert(static_cast<bool>(m.c()) == s.e, "post: conversion to bool reports the state");
  vp_assert((m.o() ? true : false) == s.e, "post: conversion to bool reports the state");
  vp_assert(m.o().has_value() == s.e, "post: has_value() reports the state");
  vp_unprotect();
  check_state<K>(m, s.e, s.v);
  vp_cover(s.e ? "engaged" : "empty");
}
template <class K, class X>
inline bool same_obj(Mem<K> & m, X && x) noexcept
{
  auto const p = reinterpret_cast<unsigned char const *>(const_cast<void const *>(static_cast<void const volatile *>(std::addressof(x))));
  auto const off = p - m.b;
  return off >= 0 && off + static_cast<std::ptrdiff_t>(sizeof(x)) <= static_cast<std::ptrdiff_t>(sizeof(m.b));
}
// All ways to reach the payload give one and the same object, unchanged.
template <class K>
void c_access()
{
  using T = typename K::T;
  Mem<K> m;
  St<K> s;
  arb_in<K>(m, s, true);
  prot<K>(m);
  auto & o = m.o();
  auto const & c = m.c();
  vp_assert((std::is_same_v<decltype(*o), T &>), "type: accessors return the payload with the matching qualification");
  vp_assert((std::is_same_v<decltype(*c), T const &>), "type: accessors return the payload with the matching qualification");
  vp_assert((std::is_same_v<decltype(*std::move(o)), T &&>), "type: accessors return the payload with the matching qualification");
  vp_assert((std::is_same_v<decltype(*std::move(c)), T const &&>), "type: accessors return the payload with the matching qualification");
  vp_assert((std::is_same_v<decltype(o.value()), T &>), "type: accessors return the payload with the matching qualification");
  vp_assert((std::is_same_v<decltype(c.value()), T const &>), "type: accessors return the payload with the matching qualification");
  vp_assert((std::is_same_v<decltype(std::move(o).value()), T &&>), "type: accessors return the payload with the matching qualification");
  vp_assert((std::is_same_v<decltype(std::move(c).value()), T const &&>), "type: accessors return the payload with the matching qualification");
  vp_assert((std::is_same_v<decltype(o.operator->()), T *>), "type: accessors return the payload with the matching qualification");
  vp_assert((std::is_same_v<decltype(c.operator->()), T const *>), "type: accessors return the payload with the matching qualification");
  T const * const p = c.operator->();
  vp_assert(same_obj<K>(m, *p), "post: the payload lives inside the optional");
  vp_assert(o.operator->() == p, "post: operator-> refers to the payload");
  {
    T & r = *o;
    vp_assert(std::addressof(r) == p, "post: operator* & refers to the payload");
  }
  {
    T const & r = *c;
    vp_assert(std::addressof(r) == p, "post: operator* const& refers to the payload");
  }
  {
    T && r = *std::move(o);
    vp_assert(std::addressof(r) == p, "post: operator* && refers to the payload");
  }
  {
    T const && r = *std::move(c);
    vp_assert(std::addressof(r) == p, "post: operator* const&& refers to the payload");
  }
  try {
    {
      T & r = o.value();
      vp_assert(std::addressof(r) == p, "post: value() & refers to the payload");
    }
    {
      T const & r = c.value();
      vp_assert(std::addressof(r) == p, "post: value() const& refers to the payload");
    }
    {
      T && r = std::move(o).value();
      vp_assert(std::addressof(r) == p, "post: value() && refers to the payload");
    }
    {
      T const && r = std::move(c).value();
      vp_assert(std::addressof(r) == p, "post: value() const&& refers to the payload");
    }
  }
  catch (std::bad_optional_access const &) {
    vp_assert(false, "post: value() throws bad_optional_access only if the optional is empty");
  }
  vp_unprotect();
  check_state<K>(m, true, s.v);
  vp_cover("end");
}
#define VP_VALUE_THROWS(NAME, EXPR)                                                                                    \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    Mem<K> m;                                                                                                          \
    St<K> s;                                                                                                           \
    arb<K>(m, s);                                                                                                      \
    prot<K>(m);                                                                                                        \
    auto & o = m.o();                                                                                                  \
    auto const & c = m.c();                                                                                            \
    (void)o;                                                                                                           \
    (void)c;                                                                                                           \
    bool bad = false;                                                                                                  \
    try {                                                                                                              \
      auto && r = EXPR;                                                                                                \
      vp_assert(same_obj<K>(m, r), "post: value() refers to the payload");                                             \
    }                                                                                                                  \
    catch (std::bad_optional_access const &) {                                                                         \
      bad = true;                                                                                                      \
    }                                                                                                                  \
    vp_unprotect();                                                                                                    \
    vp_assert(bad == !s.e, "post: value() throws bad_optional_access iff the optional is empty");                      \
    check_state<K>(m, s.e, s.v);                                                                                       \
    vp_cover(s.e ? "engaged" : "empty");                                                                               \
  }
VP_VALUE_THROWS(value_l, o.value())
VP_VALUE_THROWS(value_cl, c.value())
VP_VALUE_THROWS(value_r, std::move(o).value())
VP_VALUE_THROWS(value_cr, std::move(c).value())

// value_or.  The default is an lvalue or rvalue payload.
#define VP_VALUE_OR(NAME, EXPR, MOVES, DMOVES)                                                                         \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    Mem<K> m;                                                                                                          \
    St<K> s;                                                                                                           \
    ArgMem<K> am, rm;                                                                                                  \
    arb<K>(m, s);                                                                                                      \
    auto const d = K::fresh();                                                                                         \
    K::make(am.b, d);                                                                                                  \
    auto & arg = am.t();                                                                                               \
    auto & o = m.o();                                                                                                  \
    auto const & c = m.c();                                                                                            \
    (void)o;                                                                                                           \
    (void)c;                                                                                                           \
    vp_havoc(rm.b, sizeof(rm.b));                                                                                      \
    vp_assert((std::is_same_v<decltype(EXPR), TT<K>>), "type: value_or returns the payload type by value");\
    if (!(MOVES)) prot<K>(m);                                                                                          \
    bool const ex = thrown([&] { ::new (static_cast<void *>(rm.b)) TT<K>(EXPR); });                                    \
    vp_unprotect();                                                                                                    \
    if (!ex) {                                                                                                         \
      vp_assert(K::same(K::get(rm.t()), s.e ? s.v : d), "post: value_or yields the payload if there is one and the default otherwise"); \
      check_state<K>(m, s.e, (MOVES) ? K::moved(s.v) : s.v);                                                           \
      vp_assert(K::same(K::get(arg), (DMOVES) && !s.e ? K::moved_arg(d) : d), "post: value_or moves from the default only when it is used"); \
      vp_cover(s.e ? "engaged" : "empty");                                                                             \
    }                                                                                                                  \
    else {                                                                                                             \
      check_engaged<K>(m, s.e, kExc);                                                                                  \
      vp_assert(vp_live_in(rm.b, sizeof(rm.b), -1) == 0, "exc,life: a failed value_or leaves no object behind");       \
    }                                                                                                                  \
    vp_cover("end");                                                                                                   \
  }
VP_VALUE_OR(value_or_cl, c.value_or(std::as_const(arg)), false, false)
VP_VALUE_OR(value_or_l, o.value_or(std::as_const(arg)), false, false)
VP_VALUE_OR(value_or_clr, c.value_or(std::move(arg)), false, true)
VP_VALUE_OR(value_or_r, std::move(o).value_or(std::as_const(arg)), true, false)
VP_VALUE_OR(value_or_rr, std::move(o).value_or(std::move(arg)), true, true)
VP_VALUE_OR(value_or_cr, std::move(c).value_or(std::as_const(arg)), false, false)
// The default is the optional's own payload.
template <class K>
void c_value_or_own()
{
  Mem<K> m;
  St<K> s;
  ArgMem<K> rm;
  arb_in<K>(m, s, true);
  vp_havoc(rm.b, sizeof(rm.b));
  prot<K>(m);
  bool const ex = thrown([&] { ::new (static_cast<void *>(rm.b)) TT<K>(m.c().value_or(*m.c())); });
  vp_unprotect();
  if (!ex)
    vp_assert(K::same(K::get(rm.t()), s.v), "post: value_or yields the payload if there is one");
  check_state<K>(m, true, s.v);
  vp_cover("end");
}
template <class K>
void c_value_or_conv()
{
  Mem<K> m;
  St<K> s;
  ArgMem<K> rm;
  arb<K>(m, s);
  u64 const x = vp_nondet("x", 64);
  vp_havoc(rm.b, sizeof(rm.b));
  prot<K>(m);
  bool const ex = thrown([&] { ::new (static_cast<void *>(rm.b)) TT<K>(m.c().value_or(x)); });
  vp_unprotect();
  if (!ex) {
    vp_assert(K::same(K::get(rm.t()), s.e ? s.v : K::conv(x)), "post: value_or yields the payload if there is one and the converted default otherwise");
    vp_cover(s.e ? "engaged" : "empty");
  }
  check_state<K>(m, s.e, s.v);
  vp_cover("end");
}

//------------------------------------------------------------------------------------------------ perfect forwarding
// Arguments reach the payload's constructor or assignment with exactly their value category.
#define VP_FWD_HEAD                                                                                                    \
  using O [[maybe_unused]] = typename K::O;                                                                            \
  using T [[maybe_unused]] = typename K::T;                                                                            \
  Mem<K> m;                                                                                                            \
  XA a{vp_nondet("a", 64)}, b{vp_nondet("b", 64)};                                                                     \
  XA const &ca = a, &cb = b;                                                                                           \
  (void)ca;                                                                                                            \
  (void)cb;
#define VP_FWD_CTOR(NAME, EXPR, VALUE)                                                                                 \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    VP_FWD_HEAD                                                                                                        \
    raw<K>(m);                                                                                                         \
    bool const ex = thrown([&] { ::new (static_cast<void *>(m.b)) O EXPR; });                                          \
    if (!ex) {                                                                                                         \
      check_state<K>(m, true, VALUE);                                                                                  \
      vp_cover("normal");                                                                                              \
    }                                                                                                                  \
    else                                                                                                               \
      check_gone<K>(m, "exc,life: a failed construction leaves no object behind");                                     \
    vp_cover("end");                                                                                                   \
  }
#define VP_FWD_ASSIGN(NAME, EXPR, CVALUE, AVALUE)                                                                      \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    VP_FWD_HEAD                                                                                                        \
    St<K> s;                                                                                                           \
    arb<K>(m, s);                                                                                                      \
    counts_reset();                                                                                                    \
    bool const ex = thrown([&] { m.o() EXPR; });                                                                       \
    if (!ex) {                                                                                                         \
      check_state<K>(m, true, s.e ? (AVALUE) : (CVALUE));                                                              \
      vp_cover(s.e ? "normal, engaged" : "normal, empty");                                                             \
    }                                                                                                                  \
    vp_cover("end");                                                                                                   \
  }
#define VP_FWD(CAT, E, F)                                                                                              \
  VP_FWD_CTOR(ctor_fwd_##CAT, (E), vp_fwd(E))                                                                          \
  VP_FWD_CTOR(ctor_fwd_inplace_##CAT, (std::in_place, E), vp_fwd(E))                                                   \
  VP_FWD_CTOR(ctor_fwd_pair_##CAT, (std::in_place, E, F), vp_uf2("fwd2", vp_fwd(E), vp_fwd(F)))                        \
  VP_FWD_CTOR(ctor_fwd_il_##CAT, (std::in_place, {1, 5}, E), vp_uf2("fwdil", 5, vp_fwd(E)))                            \
  VP_FWD_CTOR(make_optional_fwd_##CAT, (tiny::make_optional<T>(E)), vp_fwd(E))                                         \
  VP_FWD_CTOR(make_optional_fwd_pair_##CAT, (tiny::make_optional<T>(E, F)), vp_uf2("fwd2", vp_fwd(E), vp_fwd(F)))      \
  VP_FWD_CTOR(make_optional_fwd_il_##CAT, (tiny::make_optional<T>({1, 5}, E)), vp_uf2("fwdil", 5, vp_fwd(E)))          \
  VP_FWD_ASSIGN(assign_fwd_##CAT, = E, vp_fwd(E), vp_uf1("afwd", vp_fwd(E)))                                           \
  VP_FWD_ASSIGN(emplace_fwd_##CAT, .emplace(E), vp_fwd(E), vp_fwd(E))                                                  \
  VP_FWD_ASSIGN(emplace_fwd_pair_##CAT, .emplace(E, F), vp_uf2("fwd2", vp_fwd(E), vp_fwd(F)), vp_uf2("fwd2", vp_fwd(E), vp_fwd(F))) \
  VP_FWD_ASSIGN(emplace_fwd_il_##CAT, .emplace({1, 5}, E), vp_uf2("fwdil", 5, vp_fwd(E)), vp_uf2("fwdil", 5, vp_fwd(E))) \
  VP_FWD_VOR(value_or_fwd_c_##CAT, m.c().value_or(E), false, vp_fwd(E))                                                \
  VP_FWD_VOR(value_or_fwd_r_##CAT, std::move(m.o()).value_or(E), true, vp_fwd(E))
#define VP_FWD_VOR(NAME, EXPR, MOVES, DVALUE)                                                                          \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    VP_FWD_HEAD                                                                                                        \
    St<K> s;                                                                                                           \
    ArgMem<K> rm;                                                                                                      \
    arb<K>(m, s);                                                                                                      \
    vp_havoc(rm.b, sizeof(rm.b));                                                                                      \
    bool const ex = thrown([&] { ::new (static_cast<void *>(rm.b)) TT<K>(EXPR); });                                    \
    if (!ex) {                                                                                                         \
      vp_assert(K::same(K::get(rm.t()), s.e ? s.v : (DVALUE)), "post: value_or yields the payload if there is one and the converted default otherwise"); \
      check_state<K>(m, s.e, (MOVES) ? K::moved(s.v) : s.v);                                                           \
      vp_cover(s.e ? "engaged" : "empty");                                                                             \
    }                                                                                                                  \
    vp_cover("end");                                                                                                   \
  }
VP_FWD(cl, ca, b)
VP_FWD(l, a, std::move(b))
VP_FWD(r, std::move(a), cb)
VP_FWD(cr, std::move(ca), std::move(b))

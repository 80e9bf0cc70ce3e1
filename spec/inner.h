// Contracts of the library's internal functions (StorageBase and the flag manipulators), each in two forms made from the
// same statement: the obligation form (c_in_*: arbitrary pre-state, the real function, post-state asserted) and the
// caller's form (stub: precondition asserted, effect havocked, post-state assumed).  tools/modular.py proves the first and
// then checks the callers against the second instead of against the bodies.
// Compiled with -fno-access-control.  If the internals are organised differently after a change, this file does not
// compile; then the contracts of the public operations alone decide (with the internal functions inlined).
#pragma once
#include "all.h"

template <class D, class F>
struct VpSB
{
  using S = tiny::impl::StorageBase<D, F>;
  using Man = F;
};
template <class D, class F>
VpSB<D, F> vp_sb(tiny::impl::StorageBase<D, F> const *);

template <class K>
struct In
{
  using O = typename K::O;
  using T = typename K::T;
  using TN = std::remove_cv_t<T>;
  using V = typename K::V;
  using I = decltype(vp_sb(static_cast<O const *>(nullptr)));
  using S = typename I::S;
  using Man = typename I::Man;
  using FT = typename S::FlagType;
  static constexpr bool cc = std::is_copy_constructible_v<T>;
  static constexpr bool mc = std::is_move_constructible_v<T>;
  static constexpr bool ca = cc && std::is_assignable_v<T &, TN const &>;
  static constexpr bool ma = mc && std::is_assignable_v<T &, TN>;
  static constexpr bool vc = K::abstract_payload && !std::is_const_v<T>;
  static_assert(sizeof(S) == sizeof(O));

  static unsigned char * mem(S * s) noexcept { return reinterpret_cast<unsigned char *>(s); }
  static TN * pay(S * s) noexcept { return const_cast<TN *>(std::addressof(s->GetPayload())); }
  static S * at(Mem<K> & m) noexcept { return static_cast<S *>(std::addressof(m.o())); }

  // the precondition "self is a valid optional"; returns its abstract state
  static St<K> inv(S * s) noexcept
  {
    St<K> st;
    st.e = vp_fork(s->has_value());
    if (st.e) {
      K::full_ghost(mem(s), "pre: the callee gets a valid optional");
      st.v = K::get(*pay(s));
    }
    else {
      K::empty_ghost(mem(s), "pre: the callee gets a valid optional");
      st.v = V{};
    }
    return st;
  }
  static void drop(S * s, bool e) noexcept // ends the life of what is there
  {
    if (e)
      K::unmake(*pay(s));
    else if constexpr (K::custom_flag)
      vp_kill(mem(s), K_FLAG);
  }
  static void become(S * s, bool e, V v) noexcept { K::establish(mem(s), e, v); }

  //---------------------------------------------------------------- callers' forms
  static void s_ctor(S * s) noexcept
  {
    vp_assert(vp_live_in(mem(s), sizeof(S), -1) == 0, "pre: an optional is constructed in memory without objects");
    become(s, false, {});
  }
  static void s_dtor(S * s) noexcept
  {
    St<K> st = inv(s);
    if (st.e)
      vp_count("dtor", 1);
    drop(s, st.e);
    vp_havoc(mem(s), sizeof(S));
  }
  static void s_reset(S * s) noexcept
  {
    St<K> st = inv(s);
    if (st.e) {
      vp_count("dtor", 1);
      drop(s, true);
      become(s, false, {});
    }
  }
  static void s_destroy(S * s) noexcept
  {
    St<K> st = inv(s);
    vp_assert(st.e, "pre: DestroyPayload() needs a payload");
    vp_count("dtor", 1);
    drop(s, true);
    vp_havoc(pay(s), sizeof(T));
  }
  template <class... A>
  static void s_built(S * s, V v, const char * counter)
  {
    St<K> st = inv(s);
    vp_assert(!st.e, "pre: ConstructPayload() needs an empty optional");
    drop(s, false);
    if constexpr (!std::is_nothrow_constructible_v<T, A...>)
      if (vp_throws("ConstructPayload")) {
        become(s, false, {});
        throw VpEx{7};
      }
    vp_count(counter, 1);
    become(s, true, v);
  }
  static void moved_from(TN & a, V v) noexcept
  {
    if constexpr (K::abstract_payload && !std::is_const_v<T>) {
      vp_havoc(a.bytes, sizeof(a.bytes));
      vp_setval(std::addressof(a), TN::kind, K::moved_arg(v));
    }
  }
  static void s_construct_copy(S * s, TN const & a) { s_built<TN const &>(s, K::get(a), "cctor"); }
  static void s_construct_move(S * s, TN & a)
  {
    V const v = K::get(a);
    s_built<TN>(s, v, std::is_const_v<T> ? "cctor" : "mctor");
    moved_from(a, v);
  }
  static void s_construct_lref(S * s, TN & a) { s_built<TN &>(s, K::get(a), "cctor"); }
  static void s_construct_conv(S * s, u64 & a) { s_built<u64 &>(s, K::conv(a), "ctor"); }
  static void s_construct_convc(S * s, u64 & a) { s_built<u64 const &>(s, K::conv(a), "ctor"); }
  static void s_construct_convr(S * s, u64 & a) { s_built<u64>(s, K::conv(a), "ctor"); }
  static void s_construct_none(S * s) { s_built<>(s, 4711, "ctor"); }
  static void s_construct_pair(S * s, u64 & a, u64 & b) { s_built<u64 &, u64 &>(s, vp_uf2("pair", a, b), "ctor"); }

  template <class A>
  static void s_assigned(S * s, V v, bool self, const char * counter)
  {
    if constexpr (!std::is_nothrow_assignable_v<T &, A>)
      if (vp_throws("AssignValue")) {
        if constexpr (K::abstract_payload)
          if (!self) {
            vp_havoc(pay(s)->bytes, sizeof(pay(s)->bytes));
            vp_setval(pay(s), TN::kind, vp_nondet("partial", 64));
          }
        throw VpEx{7};
      }
    vp_count(counter, 1);
    if constexpr (K::abstract_payload) {
      vp_havoc(pay(s)->bytes, sizeof(pay(s)->bytes));
      vp_setval(pay(s), TN::kind, v);
    }
    else
      become(s, true, v);
  }
  static void s_assign_copy(S * s, TN const & a)
  {
    St<K> st = inv(s);
    if (st.e)
      s_assigned<TN const &>(s, K::get(a), std::addressof(a) == pay(s), "cassign");
    else
      s_construct_copy(s, a);
  }
  static void s_assign_move(S * s, TN & a)
  {
    St<K> st = inv(s);
    V const v = K::get(a);
    if (st.e) {
      bool const self = std::addressof(a) == pay(s);
      s_assigned<TN>(s, v, self, "massign");
      if (!self)
        moved_from(a, v);
    }
    else
      s_construct_move(s, a);
  }
  static void s_assign_lref(S * s, TN & a) { s_assign_copy(s, a); }
  static void s_assign_convr(S * s, u64 & a)
  {
    St<K> st = inv(s);
    if (st.e)
      s_assigned<u64>(s, K::aconv(a), false, "vassign");
    else
      s_construct_convr(s, a);
  }
  static void s_assign_convc(S * s, u64 & a)
  {
    St<K> st = inv(s);
    if (st.e)
      s_assigned<u64 const &>(s, K::aconv(a), false, "vassign");
    else
      s_construct_convc(s, a);
  }
  static void s_assign_conv(S * s, u64 & a)
  {
    St<K> st = inv(s);
    if (st.e)
      s_assigned<u64 &>(s, K::aconv(a), false, "vassign");
    else
      s_construct_conv(s, a);
  }
  // manipulators
  static void s_flag_init(FT & f) noexcept
  {
    vp_havoc(std::addressof(f), sizeof(f));
    vp_builder(1);
    vp_assume(Man::is_empty(f));
    vp_builder(0);
  }
};

//-------------------------------------------------------------------------------------------------- obligations
template <class K>
void c_in_ctor()
{
  using S = typename In<K>::S;
  Mem<K> m;
  raw<K>(m);
  ::new (static_cast<void *>(m.b)) S();
  check_state<K>(m, false, {});
  vp_cover("end");
}
template <class K>
void c_in_dtor()
{
  using S = typename In<K>::S;
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  counts_reset();
  In<K>::at(m)->~S();
  check_gone<K>(m);
  if constexpr (counted_dtor<K>())
    vp_assert(vp_count("dtor", 0) == (s.e ? 1 : 0), "post: ~StorageBase destroys the payload exactly once iff there is one");
  vp_cover(s.e ? "engaged" : "empty");
}
template <class K>
void c_in_has_value()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  vp_protect(m.b, sizeof(m.b), "has_value()");
  vp_assert(std::as_const(*In<K>::at(m)).has_value() == s.e, "post: has_value() reports the state");
  vp_unprotect();
  check_state<K>(m, s.e, s.v);
  vp_cover("end");
}
template <class K>
void c_in_reset()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  counts_reset();
  if (!s.e)
    vp_protect(m.b, sizeof(m.b), "reset() of an empty optional");
  In<K>::at(m)->reset();
  vp_unprotect();
  check_state<K>(m, false, {});
  if constexpr (counted_dtor<K>())
    vp_assert(vp_count("dtor", 0) == (s.e ? 1 : 0), "post: reset() destroys the payload exactly once iff there is one");
  vp_cover(s.e ? "engaged" : "empty");
}
template <class K>
void c_in_destroy()
{
  Mem<K> m;
  St<K> s;
  arb_in<K>(m, s, true);
  counts_reset();
  unsigned char * const p = reinterpret_cast<unsigned char *>(In<K>::pay(In<K>::at(m)));
  vp_protect(m.b, static_cast<int>(p - m.b), "DestroyPayload() writes the payload only");
  vp_protect(p + sizeof(typename K::T), static_cast<int>(m.b + sizeof(m.b) - p - sizeof(typename K::T)), "DestroyPayload() writes the payload only");
  In<K>::at(m)->DestroyPayload();
  vp_unprotect();
  check_gone<K>(m);
  if constexpr (counted_dtor<K>())
    vp_assert(vp_count("dtor", 0) == 1, "post: DestroyPayload() destroys the payload exactly once");
  vp_cover("end");
}
template <class K, class F>
void vp_in_construct(F && f, typename K::V v)
{
  Mem<K> m;
  St<K> s;
  arb_in<K>(m, s, false);
  counts_reset();
  bool const ex = thrown([&] { f(In<K>::at(m)); });
  if (!ex) {
    if constexpr (counted<K>())
      check_built_once("inplace: ConstructPayload() constructs exactly one payload");
    check_state<K>(m, true, v);
    vp_cover("normal");
  }
  else
    check_state<K>(m, false, {}, kExc);
  vp_cover("end");
}
template <class K>
void c_in_construct_copy()
{
  if constexpr (In<K>::cc) {
    ArgMem<K> am;
    auto const v = K::fresh();
    K::make(am.b, v);
    vp_protect(am.b, sizeof(am.b), "the argument of ConstructPayload");
    vp_in_construct<K>([&](auto * s) { s->ConstructPayload(am.c()); }, v);
    vp_unprotect();
    vp_assert(K::same(K::get(am.t()), v), "post: ConstructPayload() leaves an lvalue argument alone");
  }
}
template <class K>
void c_in_construct_move()
{
  if constexpr (In<K>::mc) {
    ArgMem<K> am;
    auto const v = K::fresh();
    K::make(am.b, v);
    vp_in_construct<K>([&](auto * s) { s->ConstructPayload(std::move(am.t())); }, v);
  }
}
template <class K>
void c_in_construct_lref()
{
  if constexpr (In<K>::cc) {
    ArgMem<K> am;
    auto const v = K::fresh();
    K::make(am.b, v);
    vp_protect(am.b, sizeof(am.b), "the argument of ConstructPayload");
    vp_in_construct<K>([&](auto * s) { s->ConstructPayload(am.t()); }, v);
    vp_unprotect();
    vp_assert(K::same(K::get(am.t()), v), "post: ConstructPayload() leaves an lvalue argument alone");
  }
}
template <class K>
void c_in_construct_conv()
{
  if constexpr (In<K>::vc) {
    u64 x = vp_nondet("x", 64);
    vp_in_construct<K>([&](auto * s) { s->ConstructPayload(x); }, K::conv(x));
  }
}
template <class K>
void c_in_construct_convr()
{
  if constexpr (In<K>::vc) {
    u64 x = vp_nondet("x", 64);
    vp_in_construct<K>([&](auto * s) { s->ConstructPayload(std::move(x)); }, K::conv(x));
  }
}
template <class K>
void c_in_construct_convc()
{
  if constexpr (In<K>::vc) {
    u64 x = vp_nondet("x", 64);
    vp_in_construct<K>([&](auto * s) { s->ConstructPayload(std::as_const(x)); }, K::conv(x));
  }
}
template <class K>
void c_in_construct_none()
{
  if constexpr (In<K>::vc)
    vp_in_construct<K>([&](auto * s) { s->ConstructPayload(); }, 4711);
}
template <class K>
void c_in_construct_pair()
{
  if constexpr (In<K>::vc) {
    u64 x = vp_nondet("x", 64), y = vp_nondet("y", 64);
    vp_in_construct<K>([&](auto * s) { s->ConstructPayload(x, y); }, vp_uf2("pair", x, y));
  }
}
template <class K>
void c_in_construct_fn()
{
  if constexpr (In<K>::vc) {
    u64 x = vp_nondet("x", 64);
    auto f = [](u64 & a) { return typename In<K>::TN(a); };
    vp_in_construct<K>([&](auto * s) { s->ConstructPayloadFromFunction(f, x); }, K::conv(x));
  }
}
template <class K, class F>
void vp_in_assign(F && f, typename K::V va, typename K::V vc)
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  counts_reset();
  bool const ex = thrown([&] { f(In<K>::at(m)); });
  if (!ex) {
    check_inplace<K>(s.e);
    check_state<K>(m, true, s.e ? va : vc);
    vp_cover(s.e ? "normal, engaged" : "normal, empty");
  }
  else
    check_engaged<K>(m, s.e, kExc);
  vp_cover("end");
}
template <class K>
void c_in_assign_copy()
{
  if constexpr (In<K>::ca) {
    ArgMem<K> am;
    auto const v = K::fresh();
    K::make(am.b, v);
    vp_protect(am.b, sizeof(am.b), "the argument of AssignValue");
    vp_in_assign<K>([&](auto * s) { s->AssignValue(am.c()); }, v, v);
    vp_unprotect();
    vp_assert(K::same(K::get(am.t()), v), "post: AssignValue() leaves an lvalue argument alone");
  }
}
template <class K>
void c_in_assign_move()
{
  if constexpr (In<K>::ma) {
    ArgMem<K> am;
    auto const v = K::fresh();
    K::make(am.b, v);
    vp_in_assign<K>([&](auto * s) { s->AssignValue(std::move(am.t())); }, v, v);
  }
}
template <class K>
void c_in_assign_lref()
{
  if constexpr (In<K>::ca) {
    ArgMem<K> am;
    auto const v = K::fresh();
    K::make(am.b, v);
    vp_protect(am.b, sizeof(am.b), "the argument of AssignValue");
    vp_in_assign<K>([&](auto * s) { s->AssignValue(am.t()); }, v, v);
    vp_unprotect();
    vp_assert(K::same(K::get(am.t()), v), "post: AssignValue() leaves an lvalue argument alone");
  }
}
template <class K>
void c_in_assign_convr()
{
  if constexpr (In<K>::vc) {
    u64 x = vp_nondet("x", 64);
    vp_in_assign<K>([&](auto * s) { s->AssignValue(std::move(x)); }, K::aconv(x), K::conv(x));
  }
}
template <class K>
void c_in_assign_convc()
{
  if constexpr (In<K>::vc) {
    u64 x = vp_nondet("x", 64);
    vp_in_assign<K>([&](auto * s) { s->AssignValue(std::as_const(x)); }, K::aconv(x), K::conv(x));
  }
}
template <class K>
void c_in_assign_conv()
{
  if constexpr (In<K>::vc) {
    u64 x = vp_nondet("x", 64);
    vp_in_assign<K>([&](auto * s) { s->AssignValue(x); }, K::aconv(x), K::conv(x));
  }
}
// Flag manipulators of the library: init makes is_empty() true, and writes nothing but the flag.
template <class K>
void c_in_flag()
{
  if constexpr (!K::custom_flag) {
    using I = In<K>;
    Mem<K> m;
    raw<K>(m);
    auto * s = I::at(m);
    auto & f = s->GetIsEmptyFlag();
    unsigned char * const p = reinterpret_cast<unsigned char *>(const_cast<void *>(static_cast<void const volatile *>(std::addressof(f))));
    vp_assert(p >= m.b && p + sizeof(f) <= m.b + sizeof(m.b), "post: the flag lies inside the optional");
    vp_protect(m.b, static_cast<int>(p - m.b), "init_empty_flag() writes the flag only");
    vp_protect(p + sizeof(f), static_cast<int>(m.b + sizeof(m.b) - p - sizeof(f)), "init_empty_flag() writes the flag only");
    I::Man::init_empty_flag(f);
    vp_unprotect();
    vp_protect(m.b, sizeof(m.b), "is_empty()");
    vp_assert(I::Man::is_empty(f), "post: init_empty_flag() makes is_empty() true");
    vp_unprotect();
    vp_protect(m.b, static_cast<int>(p - m.b), "invalidate_empty_flag() writes the flag only");
    vp_protect(p + sizeof(f), static_cast<int>(m.b + sizeof(m.b) - p - sizeof(f)), "invalidate_empty_flag() writes the flag only");
    I::Man::invalidate_empty_flag(f);
    vp_unprotect();
    vp_cover("end");
  }
}

//-------------------------------------------------------------------------------------------------- registration
// vpw__<name>__<kit> calls the internal function (tools/modular.py reads its symbol from there), vps__... is its stub.
#define VP_IN_W(NAME, COND, PARAMS, REAL, ARGS)                                                                        \
  template <class K>                                                                                                   \
  void vpw_##NAME PARAMS                                                                                               \
  {                                                                                                                    \
    using I [[maybe_unused]] = In<K>;                                                                                  \
    using S [[maybe_unused]] = typename I::S;                                                                          \
    if constexpr (COND) { REAL; }                                                                                      \
  }                                                                                                                    \
  template <class K>                                                                                                   \
  void vps_##NAME PARAMS                                                                                               \
  {                                                                                                                    \
    using I [[maybe_unused]] = In<K>;                                                                                  \
    if constexpr (COND) { I::s_##NAME ARGS; }                                                                          \
  }
#define VP_S typename In<K>::S * s
#define VP_A typename In<K>::TN & a
VP_IN_W(ctor, true, (VP_S), ::new (static_cast<void *>(s)) S(), (s))
VP_IN_W(dtor, true, (VP_S), s->~S(), (s))
VP_IN_W(reset, true, (VP_S), s->reset(), (s))
VP_IN_W(destroy, true, (VP_S), s->DestroyPayload(), (s))
VP_IN_W(construct_copy, I::cc, (VP_S, VP_A), s->ConstructPayload(std::as_const(a)), (s, a))
VP_IN_W(construct_move, I::mc, (VP_S, VP_A), s->ConstructPayload(std::move(a)), (s, a))
VP_IN_W(construct_conv, I::vc, (VP_S, u64 & a), s->ConstructPayload(a), (s, a))
VP_IN_W(construct_convr, I::vc, (VP_S, u64 & a), s->ConstructPayload(std::move(a)), (s, a))
VP_IN_W(construct_convc, I::vc, (VP_S, u64 & a), s->ConstructPayload(std::as_const(a)), (s, a))
VP_IN_W(construct_none, I::vc, (VP_S), s->ConstructPayload(), (s))
VP_IN_W(construct_pair, I::vc, (VP_S, u64 & a, u64 & b), s->ConstructPayload(a, b), (s, a, b))
VP_IN_W(construct_lref, I::cc, (VP_S, VP_A), s->ConstructPayload(a), (s, a))
VP_IN_W(assign_lref, I::ca, (VP_S, VP_A), s->AssignValue(a), (s, a))
VP_IN_W(assign_convr, I::vc, (VP_S, u64 & a), s->AssignValue(std::move(a)), (s, a))
VP_IN_W(assign_convc, I::vc, (VP_S, u64 & a), s->AssignValue(std::as_const(a)), (s, a))
VP_IN_W(assign_copy, I::ca, (VP_S, VP_A), s->AssignValue(std::as_const(a)), (s, a))
VP_IN_W(assign_move, I::ma, (VP_S, VP_A), s->AssignValue(std::move(a)), (s, a))
VP_IN_W(assign_conv, I::vc, (VP_S, u64 & a), s->AssignValue(a), (s, a))
VP_IN_W(flag_init, !K::custom_flag, (typename In<K>::FT & f), I::Man::init_empty_flag(f), (f))
#define VP_IN_R0(NAME, K)                                                                                              \
  template void vpw_##NAME<K>(In<K>::S *);                                                                             \
  template void vps_##NAME<K>(In<K>::S *);
#define VP_IN_RA(NAME, K)                                                                                              \
  template void vpw_##NAME<K>(In<K>::S *, In<K>::TN &);                                                                \
  template void vps_##NAME<K>(In<K>::S *, In<K>::TN &);
#define VP_IN_RU(NAME, K)                                                                                              \
  template void vpw_##NAME<K>(In<K>::S *, u64 &);                                                                      \
  template void vps_##NAME<K>(In<K>::S *, u64 &);
#define VP_IN_REGISTER(K)                                                                                              \
  VP_IN_R0(ctor, K)                                                                                                    \
  VP_IN_R0(dtor, K)                                                                                                    \
  VP_IN_R0(reset, K)                                                                                                   \
  VP_IN_R0(destroy, K)                                                                                                 \
  VP_IN_R0(construct_none, K)                                                                                          \
  VP_IN_RA(construct_copy, K)                                                                                          \
  VP_IN_RA(construct_move, K)                                                                                          \
  VP_IN_RA(construct_lref, K)                                                                                          \
  VP_IN_RA(assign_lref, K)                                                                                             \
  VP_IN_RU(assign_convr, K)                                                                                            \
  VP_IN_RU(assign_convc, K)                                                                                            \
  VP_IN_RA(assign_copy, K)                                                                                             \
  VP_IN_RA(assign_move, K)                                                                                             \
  VP_IN_RU(construct_conv, K)                                                                                          \
  VP_IN_RU(construct_convr, K)                                                                                         \
  VP_IN_RU(construct_convc, K)                                                                                         \
  VP_IN_RU(assign_conv, K)                                                                                             \
  template void vpw_construct_pair<K>(In<K>::S *, u64 &, u64 &);                                                       \
  template void vps_construct_pair<K>(In<K>::S *, u64 &, u64 &);                                                       \
  template void vpw_flag_init<K>(In<K>::FT &);                                                                         \
  template void vps_flag_init<K>(In<K>::FT &);

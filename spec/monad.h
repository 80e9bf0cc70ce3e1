// Contracts of and_then, transform and or_else.
#pragma once
#include "ops.h"

struct Cap // what the callable observed
{
  int calls = 0;
  int cat = -1;              // 0 T&, 1 T const&, 2 T&&, 3 T const&&
  int self = -1;             // value category of the callable itself: 0 &, 1 const&, 2 &&, 3 const&&
  void const volatile * p = nullptr;
};
template <class A> inline constexpr int cat_of = -1;
template <class T> inline constexpr int cat_of<T &> = std::is_const_v<T> ? 1 : 0;
template <class T> inline constexpr int cat_of<T &&> = std::is_const_v<T> ? 3 : 2;

// An arbitrary callable: may throw (unless NX), returns Mk::make(value of its argument).
template <class K, class Mk, bool NX>
struct Fun
{
  Cap * c;
  template <class A>
  typename Mk::R run(A && a, int self) const noexcept(NX)
  {
    c->calls++;
    c->cat = cat_of<A &&>;
    c->self = self;
    c->p = std::addressof(a);
    if constexpr (!NX)
      if (vp_throws("callable"))
        throw VpEx{7};
    return Mk::template make<K>(const_cast<TT<K> const &>(a));
  }
  template <class A> typename Mk::R operator()(A && a) & noexcept(NX) { return run(std::forward<A>(a), 0); }
  template <class A> typename Mk::R operator()(A && a) const & noexcept(NX) { return run(std::forward<A>(a), 1); }
  template <class A> typename Mk::R operator()(A && a) && noexcept(NX) { return run(std::forward<A>(a), 2); }
  template <class A> typename Mk::R operator()(A && a) const && noexcept(NX) { return run(std::forward<A>(a), 3); }
};

template <class K>
inline u64 key(typename K::V const & v) noexcept
{
  if constexpr (std::is_same_v<typename K::V, u64>)
    return v;
  else
    return vp_uf2("key", vp_uf2("key", v.a, v.m), v.b);
}

// Results of and_then callables: some optional type, empty or engaged depending on an arbitrary predicate of the value.
template <class RK>
struct MkOpt
{
  using R = typename RK::O;
  using ResK = RK;
  template <class K>
  static R make(TT<K> const & t)
  {
    u64 const v = key<K>(K::get(t));
    if (vp_fork((vp_uf1("fsome", v) & 1) != 0))
      return R(std::in_place, RK::arg(v));
    return R();
  }
  static bool some(u64 v) noexcept { return (vp_uf1("fsome", v) & 1) != 0; }
};
// Results of transform callables.
template <class RK>
struct MkVal
{
  using R = std::remove_cv_t<typename RK::T>;
  using ResK = RK;
  template <class K>
  static R make(TT<K> const & t)
  {
    return R(RK::arg(key<K>(K::get(t))));
  }
};
// Result kits: add the value the callable builds for a given input.
template <class Base>
struct RAbs : Base
{
  static u64 arg(u64 v) noexcept { return vp_uf1("f", v); }
  static typename Base::V expect(u64 v) noexcept { return vp_uf1("conv", vp_uf1("f", v)); }
};
template <class Base>
struct RRaw : Base
{
  using U = typename Base::U;
  static U arg(u64 v) noexcept
  {
    auto x = static_cast<typename VUInt<sizeof(U)>::type>(vp_uf1("f", v));
    vp_assume(Base::legal(x));
    U r;
    std::memcpy(&r, &x, sizeof(U));
    return r;
  }
  static u64 expect(u64 v) noexcept { return static_cast<typename VUInt<sizeof(U)>::type>(vp_uf1("f", v)); }
};

template <class P> struct MPair { using K = typename P::K; using RK = typename P::RK; };

#define VP_MONAD(NAME, OPT, QCAT, CALL, OPNAME, MKT, EXPECT_SOME, ISTRANSFORM)                                          \
  template <class P>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    using K = typename P::K;                                                                                           \
    using RK = typename P::RK;                                                                                         \
    using Mk = MKT<RK>;                                                                                                \
    using F = Fun<K, Mk, P::nx>;                                                                                       \
    using RO = typename RK::O;                                                                                         \
    Mem<K> m;                                                                                                          \
    Mem<RK> r;                                                                                                         \
    St<K> s;                                                                                                           \
    arb<K>(m, s);                                                                                                      \
    raw<RK>(r);                                                                                                        \
    Cap c;                                                                                                             \
    F f{&c};                                                                                                           \
    F const & cf = f;                                                                                                  \
    (void)cf;                                                                                                          \
    auto & o = m.o();                                                                                                  \
    auto const & co = m.c();                                                                                           \
    (void)o;                                                                                                           \
    (void)co;                                                                                                          \
    void const volatile * const place = s.e ? static_cast<void const volatile *>(std::addressof(*co)) : nullptr;      \
    vp_assert((std::is_same_v<decltype(OPT.OPNAME(CALL)), RO>), "type: " #OPNAME " returns the specified optional type"); \
    counts_reset();                                                                                                    \
    prot<K>(m);                                                                                                        \
    bool const ex = thrown([&] { ::new (static_cast<void *>(r.b)) RO(OPT.OPNAME(CALL)); });                            \
    vp_unprotect();                                                                                                    \
    vp_assert(c.calls == (s.e ? 1 : 0), "post: the callable is invoked exactly once iff there is a value");            \
    if (s.e) {                                                                                                         \
      vp_assert(c.cat == (std::is_const_v<typename K::T> ? (QCAT) | 1 : (QCAT)), "post: the callable receives the payload in the value category of the optional"); \
      vp_assert(c.p == place, "post: the callable receives the contained payload itself");                             \
      vp_assert(c.self == cat_of<decltype((CALL))>, "post: the callable is invoked in its own value category");        \
    }                                                                                                                  \
    if (!ex) {                                                                                                         \
      bool const some = s.e && (EXPECT_SOME);                                                                          \
      vp_cover(s.e ? "engaged" : "empty");                                                                             \
      check_state<RK>(r, vp_fork(some), RK::expect(key<K>(s.v)));                                                      \
      if constexpr (RK::abstract_payload && (ISTRANSFORM))                                                             \
        vp_assert(vp_count("ctor", 0) == (some ? 1 : 0) && vp_count("mctor", 0) == 0 && vp_count("cctor", 0) == 0 && vp_count("dtor", 0) == 0, "post: the result is built in place, not copied or moved"); \
      final_dtor<RK>(r);                                                                                               \
    }                                                                                                                  \
    else {                                                                                                             \
      check_gone<RK>(r, "exc,life: a callable that throws leaves no result behind");                                   \
      vp_assert(s.e, "exc: an exception arises only if the callable ran");                                             \
    }                                                                                                                  \
    check_state<K>(m, s.e, s.v, ex ? kExc : kSrc);                                                                     \
    final_dtor<K>(m);                                                                                                  \
    vp_cover("end");                                                                                                   \
  }
VP_MONAD(and_then_l, o, 0, f, and_then, MkOpt, MkOpt<RK>::some(key<K>(s.v)), 0)
VP_MONAD(and_then_cl, co, 1, cf, and_then, MkOpt, MkOpt<RK>::some(key<K>(s.v)), 0)
VP_MONAD(and_then_r, std::move(o), 2, std::move(f), and_then, MkOpt, MkOpt<RK>::some(key<K>(s.v)), 0)
VP_MONAD(and_then_cr, std::move(co), 3, std::move(cf), and_then, MkOpt, MkOpt<RK>::some(key<K>(s.v)), 0)
VP_MONAD(transform_l, o, 0, f, transform, MkVal, true, 1)
VP_MONAD(transform_cl, co, 1, cf, transform, MkVal, true, 1)
VP_MONAD(transform_r, std::move(o), 2, std::move(f), transform, MkVal, true, 1)
VP_MONAD(transform_cr, std::move(co), 3, std::move(cf), transform, MkVal, true, 1)

// Member functions as callables.
struct MF
{
  int x;
  unsigned get() const noexcept { return static_cast<unsigned>(x) + 1u; }
  tiny::optional<int, -1> some() { return x < 0 ? tiny::optional<int, -1>() : tiny::optional<int, -1>(x); }
};
template <class K>
void c_monad_memfn()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  tiny::optional<unsigned> r = m.c().transform(&MF::get);
  vp_assert(r.has_value() == s.e, "post: transform with a member function");
  if (s.e)
    vp_assert(*r == static_cast<unsigned>(s.v) + 1u, "post: transform with a member function");
  auto q = m.o().and_then(&MF::some);
  int const x = static_cast<int>(static_cast<unsigned>(s.v));
  vp_assert(q.has_value() == (s.e && x >= 0), "post: and_then with a member function");
  if (vp_fork(s.e && x >= 0))
    vp_assert(*q == x, "post: and_then with a member function");
  check_state<K>(m, s.e, s.v, kSrc);
  vp_cover(s.e ? "engaged" : "empty");
}

#ifdef TINY_OPTIONAL_ENABLE_ORELSE
template <class K>
struct OrFun
{
  using R = typename K::O;
  Cap * c;
  typename K::V v;
  bool e;
  R run(int self) const
  {
    c->calls++;
    c->self = self;
    if (vp_throws("callable"))
      throw VpEx{7};
    if (!e)
      return R();
    if constexpr (K::abstract_payload)
      return R(std::in_place, v);
    else {
      ArgMem<K> am;
      K::make(am.b, v);
      return R(std::in_place, am.c());
    }
  }
  R operator()() & { return run(0); }
  R operator()() const & { return run(1); }
  R operator()() && { return run(2); }
  R operator()() const && { return run(3); }
};
  #define VP_ORELSE(NAME, OPT, MOVES, CALL)                                                                            \
    template <class K>                                                                                                 \
    void c_##NAME()                                                                                                    \
    {                                                                                                                  \
      using RO = typename K::O;                                                                                        \
      Mem<K> m, r;                                                                                                     \
      St<K> s;                                                                                                         \
      arb<K>(m, s);                                                                                                    \
      raw<K>(r);                                                                                                       \
      Cap c;                                                                                                           \
      OrFun<K> f{&c, K::fresh(), vp_bool("f.engaged")};                                                                \
      OrFun<K> const & cf = f;                                                                                         \
      (void)cf;                                                                                                        \
      auto & o = m.o();                                                                                                \
      auto const & co = m.c();                                                                                         \
      (void)o;                                                                                                         \
      (void)co;                                                                                                        \
      vp_assert((std::is_same_v<decltype(OPT.or_else(CALL)), RO>), "type: or_else returns the optional type");         \
      if (!(MOVES)) prot<K>(m);                                                                                        \
      bool const ex = thrown([&] { ::new (static_cast<void *>(r.b)) RO(OPT.or_else(CALL)); });                         \
      vp_unprotect();                                                                                                  \
      vp_assert(c.calls == (s.e ? 0 : 1), "post: the callable of or_else is invoked exactly once iff the optional is empty"); \
      if (!s.e)                                                                                                        \
        vp_assert(c.self == cat_of<decltype((CALL))>, "post: the callable is invoked in its own value category");      \
      if (!ex) {                                                                                                       \
        vp_cover(s.e ? "engaged" : "empty");                                                                           \
        if (s.e) {                                                                                                     \
          check_state<K>(r, true, s.v);                                                                                \
          check_state<K>(m, true, (MOVES) ? K::moved(s.v) : s.v, kSrc);                                                \
        }                                                                                                              \
        else {                                                                                                         \
          if constexpr (K::abstract_payload)                                                                           \
            check_state<K>(r, f.e, vp_uf1("conv", f.v));                                                               \
          else                                                                                                         \
            check_state<K>(r, f.e, f.v);                                                                               \
          check_state<K>(m, false, {}, kSrc);                                                                          \
        }                                                                                                              \
        final_dtor<K>(r);                                                                                              \
      }                                                                                                                \
      else {                                                                                                           \
        check_gone<K>(r, "exc,life: a callable that throws leaves no result behind");                                  \
        if (MOVES)                                                                                                     \
          check_engaged<K>(m, s.e, kExc);                                                                              \
        else                                                                                                           \
          check_state<K>(m, s.e, s.v, kExc);                                                                           \
      }                                                                                                                \
      vp_cover("end");                                                                                                 \
    }
VP_ORELSE(or_else_l, o, false, f)
VP_ORELSE(or_else_cl, co, false, cf)
VP_ORELSE(or_else_r, std::move(o), true, std::move(f))
VP_ORELSE(or_else_cr, std::move(co), false, std::move(cf))
#endif

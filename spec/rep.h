// Contracts about the representation of the empty state, and about misuse in debug builds.
#pragma once
#include "ops.h"

// A kit whose optional keeps the flag inside the payload: R is the bit pattern that means "empty".
template <class K, u64 R>
struct WithRes : K
{
  static constexpr u64 reserved = R;
};

// Emptiness is exactly "the bytes are the reserved pattern", for all byte patterns a payload or the flag can have.
template <class K>
void c_rep_exact()
{
  Mem<K> m;
  vp_assert(sizeof(m.b) == sizeof(typename K::T), "post: the optional has the size of its payload");
  u64 const v = vp_nondet("bits", 8 * sizeof(typename K::T));
  vp_assume(K::legal(v) || v == K::reserved);
  vp_put<typename K::U>(m.b, v);
  prot<K>(m);
  vp_assert(m.c().has_value() == (v != K::reserved), "post: the optional is empty iff it holds exactly the reserved value");
  vp_unprotect();
  if (vp_fork(v != K::reserved))
    vp_assert(vp_bits(*m.c()) == v, "post: every other value is read back unchanged");
  vp_cover("end");
}
template <class K>
inline void check_rep_empty(Mem<K> & m) noexcept
{
  typename VUInt<sizeof(typename K::T)>::type r;
  vp_assert(sizeof(m.b) == sizeof(r), "post: the optional has the size of its payload");
  std::memcpy(&r, m.b, sizeof(r));
  vp_assert(r == K::reserved, "post: an empty optional holds exactly the reserved value");
}
template <class K>
void c_rep_empty()
{
  using O = typename K::O;
  {
    Mem<K> m;
    raw<K>(m);
    ::new (static_cast<void *>(m.b)) O; // O() may zero the storage first, by the rules of the language
    check_rep_empty<K>(m);
  }
  {
    Mem<K> m;
    raw<K>(m);
    ::new (static_cast<void *>(m.b)) O(std::nullopt);
    check_rep_empty<K>(m);
  }
  {
    Mem<K> m;
    St<K> s;
    arb<K>(m, s);
    m.o().reset();
    check_rep_empty<K>(m);
  }
  {
    Mem<K> m;
    St<K> s;
    arb<K>(m, s);
    m.o() = std::nullopt;
    check_rep_empty<K>(m);
  }
  vp_cover("end");
}
// Every storable value can be stored and is read back bit for bit.
template <class K>
void c_rep_roundtrip()
{
  using O = typename K::O;
  Mem<K> m;
  ArgMem<K> a;
  auto const v = K::fresh();
  K::make(a.b, v);
  raw<K>(m);
  ::new (static_cast<void *>(m.b)) O(a.c());
  check_state<K>(m, true, v);
  auto const w = K::fresh();
  ArgMem<K> b;
  K::make(b.b, w);
  m.o().emplace(b.c());
  check_state<K>(m, true, w);
  if constexpr (!std::is_const_v<typename K::T>) {
    m.o() = a.c();
    check_state<K>(m, true, v);
    m.o() = std::nullopt;
    m.o() = b.c();
    check_state<K>(m, true, w);
  }
  vp_assert(K::same(K::get(const_cast<TT<K> const &>(m.c().value())), w), "post: every storable value is read back unchanged");
  final_dtor<K>(m);
  vp_cover("end");
}

//------------------------------------------------------------------------------------------------ flag in a member
template <class K>
void c_mem_exact()
{
  using F = typename K::Fields;
  Mem<K> m;
  vp_assert(sizeof(m.b) == sizeof(typename K::T), "post: the optional has the size of its payload");
  vp_havoc(m.b, sizeof(m.b));
  u64 const v = vp_nondet("member", F::mbits);
  vp_assume(F::legal(v) || v == F::reserved);
  auto const off = F::moff(m.b);
  vp_put<typename F::TM>(m.b + off, v);
  prot<K>(m);
  vp_assert(m.c().has_value() == (v != F::reserved), "post: emptiness depends exactly on the designated member");
  vp_unprotect();
  vp_cover("end");
}
template <class K>
inline void prot_others(Mem<K> & m) noexcept
{
  using F = typename K::Fields;
  auto const off = F::moff(m.b);
  if (off > 0)
    vp_protect(m.b, static_cast<int>(off), "a byte outside of the designated member");
  auto const rest = static_cast<int>(sizeof(m.b)) - static_cast<int>(off) - F::mbits / 8;
  if (rest > 0)
    vp_protect(m.b + off + F::mbits / 8, rest, "a byte outside of the designated member");
}
template <class K>
void c_mem_frame_reset()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  prot_others<K>(m);
  m.o().reset();
  vp_unprotect();
  check_state<K>(m, false, {});
  vp_cover("end");
}
template <class K>
void c_mem_frame_nullopt()
{
  Mem<K> m;
  St<K> s;
  arb<K>(m, s);
  prot_others<K>(m);
  m.o() = std::nullopt;
  vp_unprotect();
  check_state<K>(m, false, {});
  vp_cover("end");
}
template <class K>
void c_mem_frame_copyempty()
{
  Mem<K> m, n;
  St<K> s, t;
  arb<K>(m, s);
  arb_in<K>(n, t, false);
  prot_others<K>(m);
  m.o() = n.c();
  vp_unprotect();
  check_state<K>(m, false, {});
  vp_cover("end");
}
template <class K>
void c_mem_frame_moveempty()
{
  Mem<K> m, n;
  St<K> s, t;
  arb<K>(m, s);
  arb_in<K>(n, t, false);
  prot_others<K>(m);
  m.o() = std::move(n.o());
  vp_unprotect();
  check_state<K>(m, false, {});
  vp_cover("end");
}

// swap() with an empty optional empties the other one.
#define VP_MEM_FRAME_SWAP(NAME, EXPR)                                                                                  \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    Mem<K> m, n;                                                                                                       \
    St<K> s, t;                                                                                                        \
    arb_in<K>(m, s, true);                                                                                             \
    arb_in<K>(n, t, false);                                                                                            \
    prot_others<K>(m);                                                                                                 \
    EXPR;                                                                                                              \
    vp_unprotect();                                                                                                    \
    check_state<K>(m, false, {});                                                                                      \
    check_state<K>(n, true, s.v);                                                                                      \
    vp_cover("end");                                                                                                   \
  }
VP_MEM_FRAME_SWAP(mem_frame_swap_l, m.o().swap(n.o()))
VP_MEM_FRAME_SWAP(mem_frame_swap_r, n.o().swap(m.o()))
VP_MEM_FRAME_SWAP(mem_frame_swap_free, swap(n.o(), m.o()))

//------------------------------------------------------------------------------------------------ misuse
// Only meaningful without NDEBUG: every path must end in a failed assertion inside the library.
#define VP_MISUSE_END(what) vp_assert(false, "misuse: an assertion fires on " what)
#define VP_DEREF(NAME, EXPR)                                                                                           \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    Mem<K> m;                                                                                                          \
    St<K> s;                                                                                                           \
    arb_in<K>(m, s, false);                                                                                            \
    auto & o = m.o();                                                                                                  \
    auto const & c = m.c();                                                                                            \
    (void)o;                                                                                                           \
    (void)c;                                                                                                           \
    vp_cover("end");                                                                                                   \
    vp_expect_assert(1);                                                                                               \
    (void)EXPR;                                                                                                        \
    vp_expect_assert(0);                                                                                               \
    VP_MISUSE_END("accessing an empty optional");                                                                      \
  }
VP_DEREF(misuse_star_l, *o)
VP_DEREF(misuse_star_cl, *c)
VP_DEREF(misuse_star_r, *std::move(o))
VP_DEREF(misuse_star_cr, *std::move(c))
VP_DEREF(misuse_arrow, o.operator->())
VP_DEREF(misuse_arrow_c, c.operator->())

// K::sentinel(mem): builds a payload holding the sentinel.
#define VP_STORE(NAME, PRE, EXPR)                                                                                      \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    using O [[maybe_unused]] = typename K::O;                                                                          \
    Mem<K> m;                                                                                                          \
    St<K> s;                                                                                                           \
    ArgMem<K> am;                                                                                                      \
    K::sentinel(am.b);                                                                                                 \
    auto & arg = am.t();                                                                                               \
    (void)arg;                                                                                                         \
    PRE;                                                                                                               \
    vp_cover("end");                                                                                                   \
    vp_expect_assert(1);                                                                                               \
    EXPR;                                                                                                              \
    vp_expect_assert(0);                                                                                               \
    VP_MISUSE_END("storing the sentinel");                                                                             \
  }
VP_STORE(misuse_store_ctor, raw<K>(m), ::new (static_cast<void *>(m.b)) O(std::as_const(arg)))
VP_STORE(misuse_store_ctor_r, raw<K>(m), ::new (static_cast<void *>(m.b)) O(std::move(arg)))
VP_STORE(misuse_store_inplace, raw<K>(m), ::new (static_cast<void *>(m.b)) O(std::in_place, std::as_const(arg)))
VP_STORE(misuse_store_assign_empty, arb_in<K>(m, s, false), m.o() = std::as_const(arg))
VP_STORE(misuse_store_assign_engaged, arb_in<K>(m, s, true), m.o() = std::as_const(arg))
VP_STORE(misuse_store_assign_r, arb<K>(m, s), m.o() = std::move(arg))
VP_STORE(misuse_store_emplace, arb<K>(m, s), m.o().emplace(std::as_const(arg)))
// transform() returning the sentinel: K must be the default optional of its payload type.
template <class K>
void c_misuse_store_transform()
{
  tiny::optional<int> src(7);
  ArgMem<K> am;
  K::sentinel(am.b);
  auto & arg = am.t();
  vp_cover("end");
  vp_expect_assert(1);
  auto r = src.transform([&](int) { return arg; });
  vp_expect_assert(0);
  VP_MISUSE_END("storing the sentinel");
}
template <class K, u64 R>
struct WithSent : WithRes<K, R>
{
  static void sentinel(void * mem) noexcept { K::make(mem, R); }
};
template <class K>
struct WithMemSent : K
{
  static void sentinel(void * mem) noexcept
  {
    auto v = K::fresh();
    v.m = K::Fields::reserved;
    K::make(mem, v);
  }
};

// A payload that becomes the sentinel when it is moved from.
struct MV
{
  int v;
  MV(int x) noexcept : v(x) { }
  MV(MV const &) noexcept = default;
  MV(MV && o) noexcept : v(o.v) { o.v = 0; }
  MV & operator=(MV const &) noexcept = default;
  MV & operator=(MV && o) noexcept
  {
    int const x = o.v;
    o.v = 0;
    v = x;
    return *this;
  }
};
struct MVManip
{
  static bool is_empty(MV const & p) noexcept { return p.v == 0; }
  static void init_empty_flag(MV & p) noexcept { ::new (&p) MV(0); }
  static void invalidate_empty_flag(MV & p) noexcept { p.~MV(); }
};
#define VP_MOVEMISUSE(NAME, PRE, EXPR)                                                                                 \
  template <class K>                                                                                                   \
  void c_##NAME()                                                                                                      \
  {                                                                                                                    \
    using O [[maybe_unused]] = typename K::O;                                                                          \
    Mem<K> m, n;                                                                                                       \
    St<K> s, t;                                                                                                        \
    arb_in<K>(n, t, true);                                                                                             \
    PRE;                                                                                                               \
    vp_cover("end");                                                                                                   \
    vp_expect_assert(1);                                                                                               \
    EXPR;                                                                                                              \
    vp_expect_assert(0);                                                                                               \
    VP_MISUSE_END("a move that turns the source payload into the sentinel");                                           \
  }
VP_MOVEMISUSE(misuse_move_ctor, raw<K>(m), ::new (static_cast<void *>(m.b)) O(std::move(n.o())))
VP_MOVEMISUSE(misuse_move_assign_empty, arb_in<K>(m, s, false), m.o() = std::move(n.o()))
VP_MOVEMISUSE(misuse_move_assign_engaged, arb_in<K>(m, s, true), m.o() = std::move(n.o()))

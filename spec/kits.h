// Abstract payloads, abstract flag manipulators and the "kits" that describe each optional type under contract.
#pragma once
#include "vp.h"
#if __cplusplus >= 202002L
  #include <compare>
#endif
#include <array>
#include <cassert>
#ifdef VP_AS_GCC // let the header take its branches for gcc
  #undef __clang__
  #undef __GNUC__
  #define __GNUC__ 13
#endif
#include <tiny/optional.h>
#include <climits>
#include <limits>

enum Kinds
{
  K_P = 1,   // abstract payload object
  K_FLAG = 2, // abstract empty-flag object made by a custom manipulator
  K_M = 3    // abstract payload member that doubles as flag
};

// -------------------------------------------------------------------------------------------------
// Abstract payload.  Its operations are the *assumed contract* on the user's payload type: they may throw wherever
// not noexcept, they scribble over their own bytes, they record lifetime and an abstract 64 bit value.
// CC..MA: which special members exist; N: which are noexcept.
// -------------------------------------------------------------------------------------------------
enum : unsigned
{
  hasCC = 1, hasMC = 2, hasCA = 4, hasMA = 8,
  nCC = 16, nMC = 32, nCA = 64, nMA = 128, nVC = 256, // nVC: value constructors noexcept
  nSW = 512, // noexcept swap
  noMoveDecl = 1024, // move members not declared at all (copy used for rvalues)
  hasSW = 2048
};

#define VP_PBODY(NAME, KIND, SIZE, NVC)                                                                                \
  unsigned char bytes[SIZE];                                                                                           \
  void scribble() const noexcept                                                                                       \
  {                                                                                                                    \
    vp_havoc(bytes, SIZE);                                                                                             \
  }                                                                                                                    \
  VP_PMEMBERS(NAME, KIND, SIZE, NVC)                                                                                   \
  ~NAME()                                                                                                              \
  {                                                                                                                    \
    vp_count("dtor", 1);                                                                                               \
    vp_kill(this, KIND);                                                                                               \
    scribble();                                                                                                        \
  }
// A payload without data members.
#define VP_PBODY0(NAME, KIND, NVC)                                                                                     \
  void scribble() const noexcept { }                                                                                   \
  VP_PMEMBERS(NAME, KIND, 1, NVC)                                                                                      \
  ~NAME()                                                                                                              \
  {                                                                                                                    \
    vp_count("dtor", 1);                                                                                               \
    vp_kill(this, KIND);                                                                                               \
  }
#define VP_PMEMBERS(NAME, KIND, SIZE, NVC)                                                                             \
  static constexpr int kind = KIND;                                                                                    \
  void born(u64 v) const noexcept                                                                                      \
  {                                                                                                                    \
    vp_birth(this, SIZE, KIND, v);                                                                                     \
    scribble();                                                                                                        \
  }                                                                                                                    \
  u64 val() const noexcept                                                                                             \
  {                                                                                                                    \
    return vp_val(this, KIND);                                                                                         \
  }                                                                                                                    \
  NAME() noexcept(NVC)                                                                                                 \
  {                                                                                                                    \
    if constexpr (!(NVC)) VP_THROWS("default ctor");                                                                   \
    vp_count("ctor", 1);                                                                                               \
    born(4711);                                                                                                        \
  }                                                                                                                    \
  NAME(u64 a) noexcept(NVC)                                                                                            \
  {                                                                                                                    \
    if constexpr (!(NVC)) VP_THROWS("value ctor");                                                                     \
    vp_count("ctor", 1);                                                                                               \
    born(vp_uf1("conv", a));                                                                                           \
  }                                                                                                                    \
  NAME(u64 a, u64 b) noexcept(NVC)                                                                                     \
  {                                                                                                                    \
    if constexpr (!(NVC)) VP_THROWS("pair ctor");                                                                      \
    vp_count("ctor", 1);                                                                                               \
    born(vp_uf2("pair", a, b));                                                                                        \
  }                                                                                                                    \
  NAME(std::initializer_list<int> il, u64 b) noexcept(NVC)                                                             \
  {                                                                                                                    \
    if constexpr (!(NVC)) VP_THROWS("il ctor");                                                                        \
    vp_count("ctor", 1);                                                                                               \
    born(vp_uf2("il", vp_uf2("il0", il.size(), (u64)(unsigned)il.begin()[0]), vp_uf2("il1", (u64)(unsigned)il.begin()[1], b))); \
  }                                                                                                                    \
  NAME & operator=(u64 a) noexcept(NVC)                                                                                \
  {                                                                                                                    \
    vp_val(this, KIND);                                                                                                \
    scribble();                                                                                                        \
    if constexpr (!(NVC))                                                                                              \
      if (vp_throws("value assign")) {                                                                                 \
        vp_setval(this, KIND, vp_nondet("partial", 64));                                                               \
        throw VpEx{7};                                                                                                 \
      }                                                                                                                \
    vp_count("vassign", 1);                                                                                            \
    vp_setval(this, KIND, vp_uf1("aconv", a));                                                                         \
    return *this;                                                                                                      \
  }

#define VP_CC(NAME, KIND, N)                                                                                           \
  NAME(NAME const & o) noexcept(N)                                                                                     \
  {                                                                                                                    \
    u64 const v = vp_val(std::addressof(o), KIND);                                                                                    \
    if constexpr (!(N)) VP_THROWS("copy ctor");                                                                        \
    vp_count("cctor", 1);                                                                                              \
    born(v);                                                                                                           \
  }
#define VP_MC(NAME, KIND, N)                                                                                           \
  NAME(NAME && o) noexcept(N)                                                                                          \
  {                                                                                                                    \
    u64 const v = vp_val(std::addressof(o), KIND);                                                                                    \
    if constexpr (!(N)) VP_THROWS("move ctor");                                                                        \
    vp_count("mctor", 1);                                                                                              \
    o.scribble();                                                                                                      \
    born(v);                                                                                                           \
    vp_setval(std::addressof(o), KIND, vp_uf1("moved", v));                                                                           \
  }
#define VP_CA(NAME, KIND, N)                                                                                           \
  NAME & operator=(NAME const & o) noexcept(N)                                                                         \
  {                                                                                                                    \
    u64 const v = vp_val(std::addressof(o), KIND);                                                                                    \
    vp_val(this, KIND);                                                                                                \
    if (std::addressof(o) != this) scribble();                                                                                        \
    if constexpr (!(N))                                                                                                \
      if (vp_throws("copy assign")) {                                                                                  \
        if (std::addressof(o) != this) vp_setval(this, KIND, vp_nondet("partial", 64));                                               \
        throw VpEx{7};                                                                                                 \
      }                                                                                                                \
    vp_count("cassign", 1);                                                                                            \
    vp_setval(this, KIND, v);                                                                                          \
    return *this;                                                                                                      \
  }
#define VP_MA(NAME, KIND, N)                                                                                           \
  NAME & operator=(NAME && o) noexcept(N)                                                                              \
  {                                                                                                                    \
    u64 const v = vp_val(std::addressof(o), KIND);                                                                                    \
    vp_val(this, KIND);                                                                                                \
    if (std::addressof(o) != this) scribble();                                                                                        \
    if constexpr (!(N))                                                                                                \
      if (vp_throws("move assign")) {                                                                                  \
        if (std::addressof(o) != this) vp_setval(this, KIND, vp_nondet("partial", 64));                                               \
        throw VpEx{7};                                                                                                 \
      }                                                                                                                \
    vp_count("massign", 1);                                                                                            \
    if (std::addressof(o) != this) {                                                                                                  \
      o.scribble();                                                                                                    \
      vp_setval(this, KIND, v);                                                                                        \
      vp_setval(std::addressof(o), KIND, vp_uf1("moved", v));                                                                         \
    }                                                                                                                  \
    return *this;                                                                                                      \
  }
// A payload swap found by ADL: exchanges the abstract values.
#define VP_SWAP(NAME, KIND, N)                                                                                         \
  friend void swap(NAME & a, NAME & b) noexcept(N)                                                                     \
  {                                                                                                                    \
    u64 const x = vp_val(std::addressof(a), KIND), y = vp_val(std::addressof(b), KIND);                                                              \
    vp_count("swap", 1);                                                                                               \
    if constexpr (!(N))                                                                                                \
      if (vp_throws("swap")) {                                                                                         \
        vp_setval(std::addressof(a), KIND, vp_nondet("partial", 64));                                                                 \
        vp_setval(std::addressof(b), KIND, vp_nondet("partial", 64));                                                                 \
        throw VpEx{7};                                                                                                 \
      }                                                                                                                \
    vp_setval(std::addressof(a), KIND, y);                                                                                            \
    vp_setval(std::addressof(b), KIND, x);                                                                                            \
  }
// Arbitrary comparison operators and hash: uninterpreted functions of the abstract values.
#define VP_CMP1(NAME, OP, FN)                                                                                          \
  friend bool operator OP(NAME const & a, NAME const & b)                                                              \
  {                                                                                                                    \
    return (vp_uf2(FN, a.val(), b.val()) & 1) != 0;                                                                    \
  }
#define VP_CMP(NAME)                                                                                                   \
  VP_CMP1(NAME, ==, "eq")                                                                                              \
  VP_CMP1(NAME, !=, "ne") VP_CMP1(NAME, <, "lt") VP_CMP1(NAME, <=, "le") VP_CMP1(NAME, >, "gt") VP_CMP1(NAME, >=, "ge")

// All operations may throw.
struct PT
{
  VP_PBODY(PT, K_P, 3, false)
  VP_CC(PT, K_P, false)
  VP_MC(PT, K_P, false)
  VP_CA(PT, K_P, false)
  VP_MA(PT, K_P, false)
  VP_CMP(PT)
};
// Nothing throws.
struct PN
{
  VP_PBODY(PN, K_P, 3, true)
  VP_CC(PN, K_P, true)
  VP_MC(PN, K_P, true)
  VP_CA(PN, K_P, true)
  VP_MA(PN, K_P, true)
  VP_CMP(PN)
};
// Move construction noexcept, everything else throws; own throwing swap.
struct PA
{
  VP_PBODY(PA, K_P, 3, false)
  VP_CC(PA, K_P, false)
  VP_MC(PA, K_P, true)
  VP_CA(PA, K_P, false)
  VP_MA(PA, K_P, false)
  VP_SWAP(PA, K_P, false)
};
// Move assignment noexcept, move construction throws; own noexcept swap.
struct PB
{
  VP_PBODY(PB, K_P, 3, false)
  VP_CC(PB, K_P, false)
  VP_MC(PB, K_P, false)
  VP_CA(PB, K_P, false)
  VP_MA(PB, K_P, true)
  VP_SWAP(PB, K_P, true)
};
// Move only.
struct PM
{
  VP_PBODY(PM, K_P, 3, false)
  VP_MC(PM, K_P, false)
  VP_MA(PM, K_P, false)
};
// Copy only (no move members declared).
struct PC
{
  VP_PBODY(PC, K_P, 3, false)
  VP_CC(PC, K_P, false)
  VP_CA(PC, K_P, false)
};
// Neither copyable nor movable.
struct PX
{
  VP_PBODY(PX, K_P, 3, false)
  PX(PX const &) = delete;
  PX & operator=(PX const &) = delete;
};

// -------------------------------------------------------------------------------------------------
// Variations: which operations are noexcept (F), size, alignment.
template <unsigned F, int Size, int Align>
struct alignas(Align) PG
{
  VP_PBODY(PG, K_P, Size, (F & nVC) != 0)
  VP_CC(PG, K_P, (F & nCC) != 0)
  VP_MC(PG, K_P, (F & nMC) != 0)
  VP_CA(PG, K_P, (F & nCA) != 0)
  VP_MA(PG, K_P, (F & nMA) != 0)
};
template <unsigned G, int S, int A, std::enable_if_t<(G & hasSW) != 0, int> = 0>
void swap(PG<G, S, A> & a, PG<G, S, A> & b) noexcept((G & nSW) != 0)
{
  u64 const x = vp_val(std::addressof(a), K_P), y = vp_val(std::addressof(b), K_P);
  if constexpr ((G & nSW) == 0)
    if (vp_throws("swap")) {
      vp_setval(std::addressof(a), K_P, vp_nondet("partial", 64));
      vp_setval(std::addressof(b), K_P, vp_nondet("partial", 64));
      throw VpEx{7};
    }
  vp_setval(std::addressof(a), K_P, y);
  vp_setval(std::addressof(b), K_P, x);
}
// Overloads whatever can be overloaded, so that only the intended function may be used.
struct PH
{
  VP_PBODY(PH, K_P, 5, false)
  VP_CC(PH, K_P, false)
  VP_MC(PH, K_P, false)
  VP_CA(PH, K_P, false)
  VP_MA(PH, K_P, false)
  PH * operator&() noexcept { return nullptr; }
  PH const * operator&() const noexcept { return nullptr; }
  template <class U>
  friend void operator,(PH const &, U const &) noexcept
  {
    vp_assert(false, "post: no overloaded operator of the payload is used by accident");
  }
  template <class U>
  friend void operator,(U const &, PH const &) noexcept
  {
    vp_assert(false, "post: no overloaded operator of the payload is used by accident");
  }
  explicit operator bool() const noexcept
  {
    vp_assert(false, "post: no overloaded operator of the payload is used by accident");
    return false;
  }
  static void * operator new(std::size_t, void *) noexcept
  {
    vp_assert(false, "post: no overloaded operator of the payload is used by accident");
    return nullptr;
  }
};
// Remembers the value category of the arguments it was built from or assigned.
struct XA
{
  u64 v;
};
template <class A>
constexpr u64 vp_cat() noexcept // A&& is the type of a forwarding reference
{
  return std::is_lvalue_reference_v<A> ? (std::is_const_v<std::remove_reference_t<A>> ? 1 : 2) : (std::is_const_v<A> ? 4 : 3);
}
template <class A>
inline u64 vp_fwd(A && a) noexcept
{
  return vp_uf2("fwd", vp_cat<A>(), a.v);
}
struct PF
{
  VP_PBODY(PF, K_P, 3, false)
  VP_CC(PF, K_P, false)
  VP_MC(PF, K_P, false)
  VP_CA(PF, K_P, false)
  VP_MA(PF, K_P, false)
  void fwd(u64 x)
  {
    VP_THROWS("forwarding ctor");
    vp_count("ctor", 1);
    born(x);
  }
  PF(XA const & a) { fwd(vp_fwd(a)); }
  PF(XA & a) { fwd(vp_fwd(a)); }
  PF(XA && a) { fwd(vp_fwd(std::move(a))); }
  PF(XA const && a) { fwd(vp_fwd(std::move(a))); }
  template <class A, class B, class = decltype(std::declval<A>().v), class = decltype(std::declval<B>().v)>
  PF(A && a, B && b) { fwd(vp_uf2("fwd2", vp_fwd(std::forward<A>(a)), vp_fwd(std::forward<B>(b)))); }
  template <class B, class = decltype(std::declval<B>().v)>
  PF(std::initializer_list<int> il, B && b) { fwd(vp_uf2("fwdil", (u64)(unsigned)il.begin()[1], vp_fwd(std::forward<B>(b)))); }
  PF & as(u64 x)
  {
    vp_val(this, K_P);
    VP_THROWS("forwarding assign");
    vp_count("vassign", 1);
    vp_setval(this, K_P, vp_uf1("afwd", x));
    return *this;
  }
  PF & operator=(XA const & a) { return as(vp_fwd(a)); }
  PF & operator=(XA & a) { return as(vp_fwd(a)); }
  PF & operator=(XA && a) { return as(vp_fwd(std::move(a))); }
  PF & operator=(XA const && a) { return as(vp_fwd(std::move(a))); }
};
// The same with explicit constructors.
struct PFX
{
  VP_PBODY(PFX, K_P, 3, false)
  VP_CC(PFX, K_P, false)
  VP_MC(PFX, K_P, false)
  VP_CA(PFX, K_P, false)
  VP_MA(PFX, K_P, false)
  void fwd(u64 x)
  {
    VP_THROWS("forwarding ctor");
    vp_count("ctor", 1);
    born(x);
  }
  explicit PFX(XA const & a) { fwd(vp_fwd(a)); }
  explicit PFX(XA & a) { fwd(vp_fwd(a)); }
  explicit PFX(XA && a) { fwd(vp_fwd(std::move(a))); }
  explicit PFX(XA const && a) { fwd(vp_fwd(std::move(a))); }
  template <class A, class B, class = decltype(std::declval<A>().v), class = decltype(std::declval<B>().v)>
  explicit PFX(A && a, B && b) { fwd(vp_uf2("fwd2", vp_fwd(std::forward<A>(a)), vp_fwd(std::forward<B>(b)))); }
  template <class B, class = decltype(std::declval<B>().v)>
  explicit PFX(std::initializer_list<int> il, B && b) { fwd(vp_uf2("fwdil", (u64)(unsigned)il.begin()[1], vp_fwd(std::forward<B>(b)))); }
  PFX & as(u64 x)
  {
    vp_val(this, K_P);
    VP_THROWS("forwarding assign");
    vp_count("vassign", 1);
    vp_setval(this, K_P, vp_uf1("afwd", x));
    return *this;
  }
  PFX & operator=(XA const & a) { return as(vp_fwd(a)); }
  PFX & operator=(XA & a) { return as(vp_fwd(a)); }
  PFX & operator=(XA && a) { return as(vp_fwd(std::move(a))); }
  PFX & operator=(XA const && a) { return as(vp_fwd(std::move(a))); }
};
// A list constructor that braces would prefer over the intended constructor.
struct PL
{
  VP_PBODY(PL, K_P, 3, false)
  VP_CC(PL, K_P, false)
  VP_MC(PL, K_P, false)
  VP_CA(PL, K_P, false)
  VP_MA(PL, K_P, false)
  PL(std::initializer_list<u64> il)
  {
    VP_THROWS("list ctor");
    vp_count("ctor", 1);
    born(vp_uf1("braces", il.size()));
  }
};
// Can be built from anything (like std::any).
struct PY
{
  VP_PBODY(PY, K_P, 3, false)
  VP_CC(PY, K_P, false)
  VP_MC(PY, K_P, false)
  VP_CA(PY, K_P, false)
  VP_MA(PY, K_P, false)
  template <class X, class = std::enable_if_t<!std::is_same_v<std::decay_t<X>, PY> && !std::is_arithmetic_v<std::decay_t<X>>>>
  PY(X &&)
  {
    VP_THROWS("greedy ctor");
    vp_count("ctor", 1);
    born(vp_uf1("greedy", 0));
  }
  template <class X, class = std::enable_if_t<!std::is_same_v<std::decay_t<X>, PY> && !std::is_arithmetic_v<std::decay_t<X>>>>
  PY & operator=(X &&)
  {
    vp_val(this, K_P);
    VP_THROWS("greedy assign");
    vp_count("vassign", 1);
    vp_setval(this, K_P, vp_uf1("greedy", 1));
    return *this;
  }
};
// No data, final.
struct PE final
{
  VP_PBODY0(PE, K_P, false)
  VP_CC(PE, K_P, false)
  VP_MC(PE, K_P, false)
  VP_CA(PE, K_P, false)
  VP_MA(PE, K_P, false)
};
// Polymorphic.
struct PV
{
  virtual void vf() const noexcept { }
  VP_PBODY(PV, K_P, 3, false)
  VP_CC(PV, K_P, false)
  VP_MC(PV, K_P, true)
  VP_CA(PV, K_P, true)
  VP_MA(PV, K_P, false)
};

// Trivially destructible payloads with non-trivial other operations: the value is in the bytes, lifetime is not tracked
// (storage of such objects may be reused without destroying them), the calls are counted.
#define VP_DBODY(NAME, N)                                                                                              \
  u64 v;                                                                                                               \
  NAME() noexcept(N)                                                                                                   \
  {                                                                                                                    \
    if constexpr (!(N)) VP_THROWS("default ctor");                                                                     \
    vp_count("ctor", 1);                                                                                               \
    v = 4711;                                                                                                          \
  }                                                                                                                    \
  NAME(u64 a) noexcept(N)                                                                                              \
  {                                                                                                                    \
    if constexpr (!(N)) VP_THROWS("value ctor");                                                                       \
    vp_count("ctor", 1);                                                                                               \
    v = vp_uf1("conv", a);                                                                                             \
  }                                                                                                                    \
  NAME(u64 a, u64 b) noexcept(N)                                                                                       \
  {                                                                                                                    \
    if constexpr (!(N)) VP_THROWS("pair ctor");                                                                        \
    vp_count("ctor", 1);                                                                                               \
    v = vp_uf2("pair", a, b);                                                                                          \
  }                                                                                                                    \
  NAME(std::initializer_list<int> il, u64 b) noexcept(N)                                                               \
  {                                                                                                                    \
    if constexpr (!(N)) VP_THROWS("il ctor");                                                                          \
    vp_count("ctor", 1);                                                                                               \
    v = vp_uf2("il", vp_uf2("il0", il.size(), (u64)(unsigned)il.begin()[0]), vp_uf2("il1", (u64)(unsigned)il.begin()[1], b)); \
  }                                                                                                                    \
  NAME(NAME const & o) noexcept(N)                                                                                     \
  {                                                                                                                    \
    if constexpr (!(N)) VP_THROWS("copy ctor");                                                                        \
    vp_count("cctor", 1);                                                                                              \
    v = o.v;                                                                                                           \
  }                                                                                                                    \
  NAME(NAME && o) noexcept(N)                                                                                          \
  {                                                                                                                    \
    if constexpr (!(N)) VP_THROWS("move ctor");                                                                        \
    vp_count("mctor", 1);                                                                                              \
    u64 const x = o.v;                                                                                                 \
    v = x;                                                                                                             \
    o.v = vp_uf1("moved", x);                                                                                          \
  }                                                                                                                    \
  NAME & operator=(NAME const & o) noexcept(N)                                                                         \
  {                                                                                                                    \
    if constexpr (!(N)) VP_THROWS("copy assign");                                                                      \
    vp_count("cassign", 1);                                                                                            \
    v = o.v;                                                                                                           \
    return *this;                                                                                                      \
  }                                                                                                                    \
  NAME & operator=(NAME && o) noexcept(N)                                                                              \
  {                                                                                                                    \
    if constexpr (!(N)) VP_THROWS("move assign");                                                                      \
    vp_count("massign", 1);                                                                                            \
    if (&o != this) {                                                                                                  \
      u64 const x = o.v;                                                                                               \
      v = x;                                                                                                           \
      o.v = vp_uf1("moved", x);                                                                                        \
    }                                                                                                                  \
    return *this;                                                                                                      \
  }                                                                                                                    \
  NAME & operator=(u64 a) noexcept(N)                                                                                  \
  {                                                                                                                    \
    if constexpr (!(N)) VP_THROWS("value assign");                                                                     \
    vp_count("vassign", 1);                                                                                            \
    v = vp_uf1("aconv", a);                                                                                            \
    return *this;                                                                                                      \
  }
struct PDT
{
  VP_DBODY(PDT, false)
};
struct PDN
{
  VP_DBODY(PDN, true)
};

// -------------------------------------------------------------------------------------------------
// Abstract flag manipulator: the assumed contract on user supplied manipulators (README, "FlagManipulator").
// -------------------------------------------------------------------------------------------------
template <class F, int PKind>
struct AbsManip
{
  static bool is_empty(F const & f) noexcept
  {
    bool const flag = vp_is_live(std::addressof(f), K_FLAG);
    vp_assert(flag || vp_is_live(std::addressof(f), PKind), "proto: is_empty() is called only while a flag or a payload exists");
    return flag;
  }
  static void init_empty_flag(F & f) noexcept
  {
    vp_assert(!vp_is_live(std::addressof(f), K_FLAG), "proto: init_empty_flag() is called only when no flag exists");
    vp_assert(!vp_is_live(std::addressof(f), PKind), "proto: init_empty_flag() is called only when no payload exists");
    vp_birth(std::addressof(f), sizeof(F), K_FLAG, 0);
    vp_havoc(std::addressof(f), sizeof(F));
  }
  static void invalidate_empty_flag(F & f) noexcept
  {
    vp_assert(vp_is_live(std::addressof(f), K_FLAG), "proto: invalidate_empty_flag() is called only on an existing flag");
    vp_kill(std::addressof(f), K_FLAG);
    vp_havoc(std::addressof(f), sizeof(F));
  }
};

// Payloads with a registered manipulator.
struct QT
{
  VP_PBODY(QT, K_P, 3, false)
  VP_CC(QT, K_P, false)
  VP_MC(QT, K_P, false)
  VP_CA(QT, K_P, false)
  VP_MA(QT, K_P, false)
  VP_CMP(QT)
};
struct QN
{
  VP_PBODY(QN, K_P, 3, true)
  VP_CC(QN, K_P, true)
  VP_MC(QN, K_P, true)
  VP_CA(QN, K_P, true)
  VP_MA(QN, K_P, true)
  VP_CMP(QN)
};
template <>
struct tiny::optional_flag_manipulator<QT> : AbsManip<QT, K_P>
{
};
template <>
struct tiny::optional_flag_manipulator<QN> : AbsManip<QN, K_P>
{
};

// A member type with a registered manipulator, and a payload that has one such member among others.
struct FM
{
  VP_PBODY(FM, K_M, 3, false)
  VP_CC(FM, K_M, false)
  VP_MC(FM, K_M, false)
  VP_CA(FM, K_M, false)
  VP_MA(FM, K_M, false)
  VP_CMP(FM)
};
template <>
struct tiny::optional_flag_manipulator<FM> : AbsManip<FM, K_M>
{
};

struct SM // payload with the flag in the middle member
{
  PT a;
  FM m;
  PT b;
  SM(u64 x, u64 y)
    : a(x)
    , m(x, y)
    , b(y)
  {
  }
  SM(SM const &) = default;
  SM(SM &&) = default;
  SM & operator=(SM const &) = default;
  SM & operator=(SM &&) = default;
  explicit SM(u64 x)
    : a(x)
    , m(x)
    , b(x)
  {
  }
};

#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
  #define VP_NO_MEMBER 1
#else
  #define VP_NO_MEMBER 0
#endif
#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS)
  #define VP_NO_BITS 1
#else
  #define VP_NO_BITS 0
#endif

template <std::size_t N>
struct VUInt;
template <> struct VUInt<1> { using type = std::uint8_t; };
template <> struct VUInt<2> { using type = std::uint16_t; };
template <> struct VUInt<4> { using type = std::uint32_t; };
template <> struct VUInt<8> { using type = std::uint64_t; };

template <class T>
inline u64 vp_bits(T const & t) noexcept
{
  typename VUInt<sizeof(T)>::type r;
  std::memcpy(&r, const_cast<void const *>(static_cast<void const volatile *>(std::addressof(t))), sizeof(T));
  return r;
}

template <class T>
inline void vp_put(void * p, u64 v) noexcept
{
  auto r = static_cast<typename VUInt<sizeof(T)>::type>(v);
  std::memcpy(p, &r, sizeof(T));
}

// -------------------------------------------------------------------------------------------------
// Kits.  A kit describes one optional type O with payload T:
//   V                  abstract value of a payload
//   fresh()            arbitrary storable abstract value (never the reserved/sentinel one)
//   make(mem, v)       builds a payload with value v in raw memory (used for arguments only)
//   unmake(t)          ends its life
//   get(t)             abstract value of an existing payload
//   moved(v)           value of a payload after it was moved from
//   establish(mem,e,v) makes mem hold an arbitrary optional in state (e, v)
//   empty_ghost(mem)   ghost facts of an empty optional at mem
// -------------------------------------------------------------------------------------------------
template <class O>
inline O & vp_obj(void * mem) noexcept
{
  return *static_cast<O *>(mem);
}

// Abstract class payload, flag in a separate bool.
template <class O_, class T_>
struct KAbs
{
  using O = O_;
  using T = T_;
  using V = u64;
  static constexpr bool abstract_payload = true;
  static constexpr bool counts_dtor = true;
  static constexpr bool custom_flag = false;
  static V fresh() noexcept { return vp_nondet("value", 64); }
  static void make(void * mem, V v) noexcept
  {
    vp_birth(mem, sizeof(T), T::kind, v);
    vp_havoc(mem, sizeof(T));
  }
  static void unmake(T & t) noexcept { vp_kill(std::addressof(t), T::kind); }
  static V get(T const & t) noexcept { return vp_val(std::addressof(t), T::kind); }
  static V moved(V v) noexcept { return std::is_const_v<T> ? v : moved_arg(v); } // const payloads are copied
  static V moved_arg(V v) noexcept { return std::is_same_v<std::remove_const_t<T>, PC> ? v : vp_uf1("moved", v); }
  static bool same(V a, V b) noexcept { return a == b; }
  static V conv(u64 a) noexcept { return vp_uf1("conv", a); }
  static V aconv(u64 a) noexcept { return vp_uf1("aconv", a); }
  static void establish(void * mem, bool e, V & v) noexcept
  {
    vp_havoc(mem, sizeof(O));
    vp_builder(1);
    O & o = vp_obj<O>(mem);
    vp_assume(o.has_value() == e);
    if (e) {
      make_at(const_cast<std::remove_const_t<T> *>(std::addressof(*o)), v);
    }
    vp_builder(0);
  }
  static void make_at(void * p, V v) noexcept { vp_birth(p, sizeof(T), T::kind, v); }
  static void empty_ghost(void const * mem, const char * lab) noexcept
  {
    vp_assert(vp_live_in(mem, sizeof(O), -1) == 0, lab);
  }
  static void full_ghost(void const * mem, const char * lab) noexcept
  {
    vp_assert(vp_live_in(mem, sizeof(O), -1) == 1, lab);
  }
};

// Abstract class payload with a custom manipulator on the payload itself.
template <class O_, class T_>
struct KCust : KAbs<O_, T_>
{
  using O = O_;
  using T = T_;
  using V = u64;
  static constexpr bool custom_flag = true;
  static void establish(void * mem, bool e, V & v) noexcept
  {
    vp_havoc(mem, sizeof(O));
    if (e) {
      vp_birth(mem, sizeof(T), T::kind, v);
    }
    else {
      vp_birth(mem, sizeof(T), K_FLAG, 0);
    }
    O & o = vp_obj<O>(mem);
    vp_assert(o.has_value() == e, "inv: has_value() follows the flag object");
  }
  static void empty_ghost(void const * mem, const char * lab) noexcept
  {
    vp_assert(vp_live_in(mem, sizeof(O), -1) == 1 && vp_is_live(mem, K_FLAG), lab);
  }
  static void full_ghost(void const * mem, const char * lab) noexcept
  {
    vp_assert(vp_live_in(mem, sizeof(O), -1) == 1 && vp_is_live(mem, T::kind), lab);
  }
};

// Struct payload with an abstract flag member.
struct V3
{
  u64 a, m, b;
};
template <class O_>
struct KMemAbs
{
  using O = O_;
  using T = SM;
  using V = V3;
  static constexpr bool abstract_payload = true;
  static constexpr bool custom_flag = !VP_NO_MEMBER;
  static V fresh() noexcept { return V{vp_nondet("value.a", 64), vp_nondet("value.m", 64), vp_nondet("value.b", 64)}; }
  static void make_at(void * p, V v) noexcept
  {
    vp_birth(p, sizeof(PT), K_P, v.a);
    vp_birth(static_cast<char *>(p) + offsetof(SM, m), sizeof(FM), K_M, v.m);
    vp_birth(static_cast<char *>(p) + offsetof(SM, b), sizeof(PT), K_P, v.b);
  }
  static void make(void * mem, V v) noexcept
  {
    vp_havoc(mem, sizeof(T));
    make_at(mem, v);
  }
  static void unmake(T & t) noexcept
  {
    vp_kill(&t.a, K_P);
    vp_kill(&t.m, K_M);
    vp_kill(&t.b, K_P);
  }
  static V get(T const & t) noexcept { return V{vp_val(&t.a, K_P), vp_val(&t.m, K_M), vp_val(&t.b, K_P)}; }
  static V moved(V v) noexcept { return V{vp_uf1("moved", v.a), vp_uf1("moved", v.m), vp_uf1("moved", v.b)}; }
  static V moved_arg(V v) noexcept { return moved(v); }
  static bool same(V x, V y) noexcept { return x.a == y.a && x.m == y.m && x.b == y.b; }
  static V conv(u64 a) noexcept { return V{vp_uf1("conv", a), vp_uf1("conv", a), vp_uf1("conv", a)}; }
  static void establish(void * mem, bool e, V & v) noexcept
  {
    vp_havoc(mem, sizeof(O));
    O & o = vp_obj<O>(mem);
    if constexpr (custom_flag) {
      if (e)
        make_at(mem, v);
      else
        vp_birth(static_cast<char *>(mem) + offsetof(SM, m), sizeof(FM), K_FLAG, 0);
      vp_assert(o.has_value() == e, "inv: has_value() follows the flag object");
    }
    else {
      vp_builder(1);
      vp_assume(o.has_value() == e);
      if (e)
        make_at(std::addressof(*o), v);
      vp_builder(0);
    }
  }
  static void empty_ghost(void const * mem, const char * lab) noexcept
  {
    if constexpr (custom_flag)
      vp_assert(
          vp_live_in(mem, sizeof(O), -1) == 1
              && vp_is_live(static_cast<char const *>(mem) + offsetof(SM, m), K_FLAG),
          lab);
    else
      vp_assert(vp_live_in(mem, sizeof(O), -1) == 0, lab);
  }
  static void full_ghost(void const * mem, const char * lab) noexcept
  {
    vp_assert(
        vp_live_in(mem, sizeof(O), K_P) == 2 && vp_live_in(mem, sizeof(O), K_M) == 1
            && vp_live_in(mem, sizeof(O), K_FLAG) == 0,
        lab);
  }
};

// Trivially destructible payload with its value in its bytes, counted operations.
template <class O_, class T_>
struct KTriv
{
  using O = O_;
  using T = T_;
  using V = u64;
  static constexpr bool abstract_payload = true;
  static constexpr bool counts_dtor = false;
  static constexpr bool custom_flag = false;
  static V fresh() noexcept { return vp_nondet("value", 64); }
  static void make(void * mem, V v) noexcept { vp_put<u64>(mem, v); }
  static void unmake(T &) noexcept { }
  static V get(T const & t) noexcept { return t.v; }
  static V moved(V v) noexcept { return std::is_const_v<T> ? v : moved_arg(v); }
  static V moved_arg(V v) noexcept { return vp_uf1("moved", v); }
  static bool same(V a, V b) noexcept { return a == b; }
  static V conv(u64 a) noexcept { return vp_uf1("conv", a); }
  static V aconv(u64 a) noexcept { return vp_uf1("aconv", a); }
  static void establish(void * mem, bool e, V & v) noexcept
  {
    vp_havoc(mem, sizeof(O));
    vp_builder(1);
    O & o = vp_obj<O>(mem);
    vp_assume(o.has_value() == e);
    if (e) {
      V const x = o->v;
      vp_assume(x == v);
    }
    vp_builder(0);
  }
  static void empty_ghost(void const *, const char *) noexcept { }
  static void full_ghost(void const *, const char *) noexcept { }
};

// Trivial payload of 1,2,4 or 8 bytes.  Legal: predicate on the bit pattern (documented storable values).
template <class O_, class T_, class Legal>
struct KRaw
{
  using O = O_;
  using T = T_;
  using U = std::remove_cv_t<T_>;
  using V = u64;
  static constexpr bool abstract_payload = false;
  static constexpr bool custom_flag = false;
  static bool legal(V v) noexcept { return Legal::ok(v); }
  static V fresh() noexcept
  {
    V v = vp_nondet("value", 8 * sizeof(T));
    vp_assume(Legal::ok(v));
    return v;
  }
  static void make(void * mem, V v) noexcept { vp_put<U>(mem, v); }
  static void unmake(T &) noexcept { }
  static V get(T const & t) noexcept { return vp_bits(t); }
  static V moved(V v) noexcept { return v; }
  static V moved_arg(V v) noexcept { return moved(v); }
  static bool same(V a, V b) noexcept { return a == b; }
  static void establish(void * mem, bool e, V & v) noexcept
  {
    vp_havoc(mem, sizeof(O));
    vp_builder(1);
    O & o = vp_obj<O>(mem);
#ifdef VP_MAIN // executions: a bool that is neither true nor false exists only as the empty state
    if constexpr (std::is_same_v<std::remove_cv_t<T>, bool> && sizeof(O) == 1) {
      O const fresh;
      vp_assume(*static_cast<unsigned char const *>(mem) <= 1 || std::memcmp(mem, static_cast<void const *>(&fresh), 1) == 0);
    }
#endif
    vp_assume(o.has_value() == e);
    if (e) {
      V const x = vp_bits(*o);
      vp_assume(x == v);
    }
    vp_builder(0);
  }
  static void empty_ghost(void const *, const char *) noexcept { }
  static void full_ghost(void const *, const char *) noexcept { }
};

// The payload is itself an optional (described by KI).
struct V2
{
  u64 e, v;
};
template <class O_, class KI>
struct KNest
{
  using O = O_;
  using T = typename KI::O;
  using V = V2;
  static constexpr bool abstract_payload = false;
  static constexpr bool custom_flag = false;
  static V fresh() noexcept
  {
    u64 const v = KI::fresh();
    return vp_bool("inner engaged") ? V{1, v} : V{0, 0};
  }
  static void make(void * mem, V v) noexcept
  {
    u64 w = v.v;
    KI::establish(mem, v.e != 0, w);
  }
  static void unmake(T &) noexcept { }
  static V get(T const & t) noexcept { return t.has_value() ? V{1, vp_bits(*t)} : V{0, 0}; }
  static V moved(V v) noexcept { return v; }
  static V moved_arg(V v) noexcept { return v; }
  static bool same(V x, V y) noexcept { return x.e == y.e && x.v == y.v; }
  static void establish(void * mem, bool e, V & v) noexcept
  {
    vp_havoc(mem, sizeof(O));
    vp_builder(1);
    O & o = vp_obj<O>(mem);
    vp_assume(o.has_value() == e);
    if (e) {
      V const x = get(*o);
      vp_assume(same(x, v));
    }
    vp_builder(0);
  }
  static void empty_ghost(void const *, const char *) noexcept { }
  static void full_ghost(void const *, const char *) noexcept { }
};

// Legal predicates.  They come from the documentation, not from the code.
struct LAny { static bool ok(u64) noexcept { return true; } };
struct LBool { static bool ok(u64 v) noexcept { return v <= 1; } };
template <u64 S> struct LNot { static bool ok(u64 v) noexcept { return v != S; } };

// Storable values of the types with spare bit patterns, as documented in the README ("unused bit patterns").
constexpr u64 kResBool = 0xfe, kResFloat = 0x7fedcba9u, kResDouble = 0x7ff8fedcba987654ull;
constexpr u64 kResPtr = sizeof(void *) == 8 ? 0xffff7fffffffffffull : 0xfffffff7ull;
using LDouble = std::conditional_t<VP_NO_BITS, LAny, LNot<kResDouble>>;
using LFloat = std::conditional_t<VP_NO_BITS, LAny, LNot<kResFloat>>;
using LPtr = std::conditional_t<VP_NO_BITS, LAny, LNot<kResPtr>>;

// Trivial struct payload whose flag lives in member m (or in a separate bool if the member trick is disabled).
// F describes it: put(mem, V3), get(T), legalm(m), moff, msize.
template <class O_, class F>
struct KFields
{
  using O = O_;
  using T = typename F::T;
  using V = V3;
  using Fields = F;
  static constexpr bool abstract_payload = false;
  static constexpr bool custom_flag = false;
  static V fresh() noexcept
  {
    V v{vp_nondet("value.a", F::abits), vp_nondet("value.m", F::mbits), vp_nondet("value.b", F::bbits)};
    vp_assume(F::legal(v.m));
    return v;
  }
  static void make(void * mem, V v) noexcept
  {
    vp_havoc(mem, sizeof(T));
    F::put(mem, v);
  }
  static void unmake(T &) noexcept { }
  static V get(T const & t) noexcept { return V{vp_bits(F::a(t)), vp_bits(F::m(t)), vp_bits(F::b(t))}; }
  static V moved(V v) noexcept { return v; }
  static V moved_arg(V v) noexcept { return moved(v); }
  static bool same(V x, V y) noexcept { return x.a == y.a && x.m == y.m && x.b == y.b; }
  static void establish(void * mem, bool e, V & v) noexcept
  {
    vp_havoc(mem, sizeof(O));
    vp_builder(1);
    O & o = vp_obj<O>(mem);
    vp_assume(o.has_value() == e);
    if (e) {
      V const x = get(*o);
      vp_assume(same(x, v));
    }
    vp_builder(0);
  }
  static void empty_ghost(void const *, const char *) noexcept { }
  static void full_ghost(void const *, const char *) noexcept { }
};

template <class T_, auto A, auto M, auto B>
struct FieldsOf
{
  using T = T_;
  static auto const & a(T const & t) noexcept { return t.*A; }
  static auto const & m(T const & t) noexcept { return t.*M; }
  static auto const & b(T const & t) noexcept { return t.*B; }
  using TA = std::remove_cv_t<std::remove_reference_t<decltype(std::declval<T &>().*A)>>;
  using TM = std::remove_cv_t<std::remove_reference_t<decltype(std::declval<T &>().*M)>>;
  using TB = std::remove_cv_t<std::remove_reference_t<decltype(std::declval<T &>().*B)>>;
  static constexpr int abits = 8 * sizeof(TA), mbits = 8 * sizeof(TM), bbits = 8 * sizeof(TB);
  static void put(void * mem, V3 v) noexcept
  {
    T & t = *static_cast<T *>(mem);
    vp_put<TA>(const_cast<TA *>(&(t.*A)), v.a);
    vp_put<TM>(const_cast<TM *>(&(t.*M)), v.m);
    vp_put<TB>(const_cast<TB *>(&(t.*B)), v.b);
  }
  static std::ptrdiff_t moff(void const * mem) noexcept
  {
    return reinterpret_cast<char const *>(&(static_cast<T const *>(mem)->*M)) - static_cast<char const *>(mem);
  }
};
struct SD { int a; double m; char b; };       // spare bits of a double member
struct SP { char a; int * m; short b; };      // spare bits of a pointer member
struct SB { short a; bool m; unsigned char b; }; // spare bits of a bool member
struct SF { char a; float m; char b; };
struct SI { char a; int m; unsigned b; };     // sentinel in an int member
struct SU { unsigned short a; unsigned char m; unsigned char b; };
struct SL { char a; char b; long long m; };
// Large trivially copyable payloads.
struct SX { unsigned char a; long long pad0[3]; double m; char pad1[5]; unsigned short b; };
struct SY { int a; char m; char pad[70]; long long b; };
struct FAny { static constexpr u64 reserved = 0; static bool legal(u64) noexcept { return true; } };
struct FXs : FieldsOf<SX, &SX::a, &SX::m, &SX::b>, FAny { };
struct FYs : FieldsOf<SY, &SY::a, &SY::m, &SY::b>, FAny { };
struct FDs : FieldsOf<SD, &SD::a, &SD::m, &SD::b>, FAny { };
struct FSs : FieldsOf<SI, &SI::a, &SI::m, &SI::b>, FAny { };
struct FX : FXs { static constexpr u64 reserved = kResDouble; static bool legal(u64 m) noexcept { return VP_NO_MEMBER || m != kResDouble; } };
struct FD : FieldsOf<SD, &SD::a, &SD::m, &SD::b> { static constexpr u64 reserved = kResDouble; static bool legal(u64 m) noexcept { return VP_NO_MEMBER || m != kResDouble; } };
struct FP : FieldsOf<SP, &SP::a, &SP::m, &SP::b> { static constexpr u64 reserved = kResPtr; static bool legal(u64 m) noexcept { return VP_NO_MEMBER || m != kResPtr; } };
struct FB : FieldsOf<SB, &SB::a, &SB::m, &SB::b> { static constexpr u64 reserved = kResBool; static bool legal(u64 m) noexcept { return m <= 1; } };
struct FF : FieldsOf<SF, &SF::a, &SF::m, &SF::b> { static constexpr u64 reserved = kResFloat; static bool legal(u64 m) noexcept { return VP_NO_MEMBER || m != kResFloat; } };
template <u64 S> struct FI : FieldsOf<SI, &SI::a, &SI::m, &SI::b> { static constexpr u64 reserved = S; static bool legal(u64 m) noexcept { return VP_NO_MEMBER || m != S; } };
template <u64 S> struct FU : FieldsOf<SU, &SU::a, &SU::m, &SU::b> { static constexpr u64 reserved = S; static bool legal(u64 m) noexcept { return VP_NO_MEMBER || m != S; } };
template <u64 S> struct FL : FieldsOf<SL, &SL::a, &SL::m, &SL::b> { static constexpr u64 reserved = S; static bool legal(u64 m) noexcept { return VP_NO_MEMBER || m != S; } };

// Obligations about types: sizes, noexcept specifications, availability of operations, representability of constants.
#pragma once
#include "kits.h"
#include <array>
#include <cstddef>
#include <functional>
#include <utility>

//------------------------------------------------------------------------------------------------ C17, C20
// Payload with any combination of special members.  CC, MC, CA, MA: 0 deleted, 1 noexcept, 2 throwing, 3 not declared (moves only).
template <int CC, int MC, int CA, int MA, int SW>
struct Pay;
#define VP_SP_0(sig) sig = delete;
#define VP_SP_1(sig, body) sig noexcept body
#define VP_SP_2(sig, body) sig noexcept(false) body
#define VP_CC0(N) N(N const &) = delete;
#define VP_CC1(N) N(N const &) noexcept { }
#define VP_CC2(N) N(N const &) noexcept(false) { }
#define VP_MC0(N) N(N &&) = delete;
#define VP_MC1(N) N(N &&) noexcept { }
#define VP_MC2(N) N(N &&) noexcept(false) { }
#define VP_MC3(N)
#define VP_CA0(N) N & operator=(N const &) = delete;
#define VP_CA1(N) N & operator=(N const &) noexcept { return *this; }
#define VP_CA2(N) N & operator=(N const &) noexcept(false) { return *this; }
#define VP_MA0(N) N & operator=(N &&) = delete;
#define VP_MA1(N) N & operator=(N &&) noexcept { return *this; }
#define VP_MA2(N) N & operator=(N &&) noexcept(false) { return *this; }
#define VP_MA3(N)
#define VP_SW0(N)
#define VP_SW1(N) friend void swap(N &, N &) noexcept { }
#define VP_SW2(N) friend void swap(N &, N &) noexcept(false) { }
#define VP_SW3(N) friend void swap(N &, N &) = delete;
// CC/CA 2 behaves like 1 for availability; the matrix below picks representative combinations.
#define VP_PAYDEF(a, b, c, d, e)                                                                                       \
  template <>                                                                                                          \
  struct Pay<a, b, c, d, e>                                                                                            \
  {                                                                                                                    \
    using N = Pay;                                                                                                     \
    int v = 0;                                                                                                         \
    Pay() { }                                                                                                          \
    explicit Pay(int) { }                                                                                              \
    VP_CC##a(Pay) VP_MC##b(Pay) VP_CA##c(Pay) VP_MA##d(Pay) VP_SW##e(Pay)                                              \
  };

template <class P>
struct PayManip
{
  static bool is_empty(P const & p) noexcept { return p.v == 99; }
  static void init_empty_flag(P & p) noexcept { p.v = 99; }
  static void invalidate_empty_flag(P & p) noexcept { p.v = 0; }
};

template <class O, class S> // tiny optional, std::optional of the same payload
void facts_noexcept()
{
  using T = typename S::value_type;
  (void)sizeof(T);
  vp_assert(std::is_nothrow_default_constructible_v<O>, "noexcept: default construction");
  vp_assert((std::is_nothrow_constructible_v<O, std::nullopt_t>), "noexcept: construction from nullopt");
  vp_assert(std::is_nothrow_destructible_v<O>, "noexcept: destruction");
  vp_assert((std::is_nothrow_assignable_v<O &, std::nullopt_t>), "noexcept: assignment of nullopt");
  vp_assert(noexcept(std::declval<O &>().reset()), "noexcept: reset");
  vp_assert(noexcept(std::declval<O const &>().has_value()), "noexcept: has_value");
  vp_assert(noexcept(static_cast<bool>(std::declval<O const &>())), "noexcept: conversion to bool");
  vp_assert(noexcept(*std::declval<O &>()) && noexcept(*std::declval<O const &>()) && noexcept(*std::declval<O &&>()) && noexcept(*std::declval<O const &&>()), "noexcept: operator*");
  vp_assert(noexcept(std::declval<O &>().operator->()) && noexcept(std::declval<O const &>().operator->()), "noexcept: operator->");
  vp_assert(noexcept(std::declval<O const &>() == std::nullopt) && noexcept(std::nullopt != std::declval<O const &>()), "noexcept: comparison with nullopt");
  if constexpr (std::is_move_constructible_v<T>)
    vp_assert(std::is_nothrow_move_constructible_v<O> == std::is_nothrow_move_constructible_v<T>, "noexcept: move construction exactly as the payload's");
  if constexpr (std::is_move_constructible_v<T> && std::is_move_assignable_v<T>)
    vp_assert(std::is_nothrow_move_assignable_v<O> == (std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T>), "noexcept: move assignment exactly as the payload's");
  if constexpr (std::is_move_constructible_v<T> && std::is_swappable_v<T>) {
    bool const expect = std::is_nothrow_move_constructible_v<T> && std::is_nothrow_swappable_v<T>;
    vp_assert(noexcept(std::declval<O &>().swap(std::declval<O &>())) == expect, "noexcept: member swap exactly as the payload's");
    vp_assert(std::is_nothrow_swappable_v<O> == expect, "noexcept: swap exactly as the payload's");
  }
  vp_cover("end");
}

template <class O, class S>
void facts_avail()
{
  using T = typename S::value_type;
  vp_assert((std::is_same_v<typename O::value_type, T>), "avail: value_type is the payload type");
  vp_assert(std::is_default_constructible_v<O>, "avail: default construction");
  vp_assert(std::is_copy_constructible_v<O> == std::is_copy_constructible_v<S>, "avail: copy construction as for std::optional");
  vp_assert(std::is_move_constructible_v<O> == std::is_move_constructible_v<S>, "avail: move construction as for std::optional");
  vp_assert((std::is_constructible_v<O, O &> == std::is_constructible_v<S, S &>), "avail: construction from a non-const lvalue as for std::optional");
  vp_assert(std::is_copy_assignable_v<O> == std::is_copy_assignable_v<S>, "avail: copy assignment as for std::optional");
  vp_assert(std::is_move_assignable_v<O> == std::is_move_assignable_v<S>, "avail: move assignment as for std::optional");
  vp_assert(std::is_swappable_v<O> || !std::is_swappable_v<S>, "avail: swap whenever std::optional offers it");
  vp_assert((std::is_constructible_v<O, T const &> == std::is_constructible_v<S, T const &>), "avail: construction from a value as for std::optional");
  vp_assert((std::is_constructible_v<O, T> == std::is_constructible_v<S, T>), "avail: construction from an rvalue as for std::optional");
  vp_assert((std::is_convertible_v<T const &, O> == std::is_convertible_v<T const &, S>), "avail: implicit construction from a value as for std::optional");
  vp_assert((std::is_convertible_v<T, O> == std::is_convertible_v<T, S>), "avail: implicit construction from an rvalue as for std::optional");
  vp_assert((std::is_assignable_v<O &, T const &> == std::is_assignable_v<S &, T const &>), "avail: assignment of a value as for std::optional");
  vp_assert((std::is_assignable_v<O &, T> == std::is_assignable_v<S &, T>), "avail: assignment of an rvalue as for std::optional");
  vp_assert((std::is_assignable_v<O &, std::nullopt_t> == std::is_assignable_v<S &, std::nullopt_t>), "avail: assignment of nullopt as for std::optional");
  vp_assert((std::is_convertible_v<std::nullopt_t, O> == std::is_convertible_v<std::nullopt_t, S>), "avail: implicit construction from nullopt as for std::optional");
  vp_assert(!std::is_convertible_v<O, bool> && (std::is_constructible_v<bool, O>), "avail: conversion to bool is explicit");
  vp_cover("end");
}
// Other argument types.
template <class O, class S, class U>
void facts_conv()
{
  vp_assert((std::is_constructible_v<O, U> == std::is_constructible_v<S, U>), "avail: converting construction as for std::optional");
  vp_assert((std::is_convertible_v<U, O> == std::is_convertible_v<U, S>), "avail: implicit converting construction as for std::optional");
  vp_assert((std::is_assignable_v<O &, U> == std::is_assignable_v<S &, U>), "avail: converting assignment as for std::optional");
  vp_assert((std::is_constructible_v<O, std::in_place_t, U> == std::is_constructible_v<S, std::in_place_t, U>), "avail: in-place construction as for std::optional");
  vp_assert((std::is_constructible_v<O, std::in_place_t, U, U> == std::is_constructible_v<S, std::in_place_t, U, U>), "avail: in-place construction as for std::optional");
  vp_assert((std::is_constructible_v<O, std::in_place_t, std::initializer_list<int>, U> == std::is_constructible_v<S, std::in_place_t, std::initializer_list<int>, U>), "avail: in-place construction from an initializer list as for std::optional");
  vp_assert((std::is_convertible_v<std::in_place_t, O> == std::is_convertible_v<std::in_place_t, S>), "avail: in_place is no implicit value");
  vp_cover("end");
}
struct CvImpl { CvImpl(int) { } CvImpl & operator=(int) { return *this; } };              // implicit from int
struct CvExpl { explicit CvExpl(int) { } CvExpl & operator=(int) { return *this; } };     // explicit from int
struct CvNoAs { CvNoAs(int) { } CvNoAs & operator=(int) = delete; CvNoAs(CvNoAs const &) = default; CvNoAs & operator=(CvNoAs const &) = default; };
struct CvTwo { CvTwo(int, int) { } };
struct CvList { CvList(std::initializer_list<int>, int) { } CvList(std::initializer_list<int>) { } };
struct CvAny { template <class X, class = std::enable_if_t<!std::is_same_v<std::decay_t<X>, CvAny>>> CvAny(X &&) { } };
struct CvNone { };
struct CvDer : CvNone { };                                                                // derived from a payload
struct CvRef { CvRef(int &) { } CvRef(int &&) = delete; CvRef & operator=(int &) { return *this; } }; // lvalues only
struct CvTmpl { template <class X, std::enable_if_t<std::is_integral_v<X>, int> = 0> explicit CvTmpl(X) { } CvTmpl & operator=(CvNone) { return *this; } };
struct CvConv { CvConv(CvNone const &) { } CvConv & operator=(CvNone &&) { return *this; } CvConv & operator=(CvNone const &) = delete; };
struct ToInt { operator int() const { return 1; } };
struct ToIntExpl { explicit operator int() const { return 1; } };
enum class En : int { a, b };
enum Eu : unsigned { ea, eb };

// Types deduced by make_optional and by class template argument deduction: those of std::optional, with tiny instead of std.
template <class A>
void facts_deduce()
{
  using D = std::decay_t<A>;
  vp_assert((std::is_same_v<decltype(tiny::make_optional(std::declval<A>())), tiny::optional<D>>), "type: make_optional deduces the decayed type");
  vp_assert((std::is_same_v<typename decltype(tiny::make_optional(std::declval<A>()))::value_type, typename decltype(std::make_optional(std::declval<A>()))::value_type>), "type: make_optional deduces the same payload as std::make_optional");
  vp_assert((std::is_same_v<decltype(tiny::optional(std::declval<A>())), tiny::optional<D>>), "type: class template argument deduction deduces the decayed type");
  vp_cover("end");
}
template <class O, class S>
void facts_deduce_copy()
{
  vp_assert((std::is_same_v<decltype(tiny::optional(std::declval<O>())), O>), "type: class template argument deduction copies an optional");
  vp_assert((std::is_same_v<decltype(tiny::optional(std::declval<O &>())), O>), "type: class template argument deduction copies an optional");
  vp_assert((std::is_same_v<decltype(tiny::optional(std::declval<O const &>())), O>), "type: class template argument deduction copies an optional");
  vp_assert((std::is_same_v<decltype(tiny::optional{std::declval<O const &>()}), O>), "type: class template argument deduction copies an optional");
  vp_assert((std::is_same_v<decltype(tiny::optional(std::declval<S>())), tiny::optional<S>>), "type: class template argument deduction wraps a std::optional");
  vp_assert((std::is_same_v<decltype(tiny::make_optional(std::declval<O>())), tiny::optional<O>>), "type: make_optional wraps an optional");
  vp_cover("end");
}
template <class O, class T, auto... S>
void facts_make_type()
{
  vp_assert((std::is_same_v<decltype(tiny::make_optional<T, S...>(std::declval<T>())), O>), "type: make_optional with explicit arguments returns that optional");
  vp_assert((std::is_same_v<decltype(tiny::make_optional<T, S...>(std::declval<T const &>())), O>), "type: make_optional with explicit arguments returns that optional");
  vp_assert((std::is_same_v<decltype(tiny::make_optional<T, S...>()), O>), "type: make_optional with explicit arguments returns that optional");
  vp_assert((std::is_same_v<decltype(tiny::make_optional<T, S...>({1, 2}, 3)), O>), "type: make_optional with explicit arguments returns that optional");
  vp_cover("end");
}
// Return types that do not depend on the payload.
template <class O, class S>
void facts_types()
{
  using T = typename S::value_type;
  vp_assert((std::is_same_v<typename O::value_type, T>), "type: value_type is the payload type");
  vp_assert((std::is_same_v<decltype(*std::declval<O &>()), T &>) && (std::is_same_v<decltype(*std::declval<O const &>()), T const &>) && (std::is_same_v<decltype(*std::declval<O &&>()), T &&>) && (std::is_same_v<decltype(*std::declval<O const &&>()), T const &&>), "type: operator* keeps const and value category");
  vp_assert((std::is_same_v<decltype(std::declval<O &>().value()), T &>) && (std::is_same_v<decltype(std::declval<O const &>().value()), T const &>) && (std::is_same_v<decltype(std::declval<O &&>().value()), T &&>) && (std::is_same_v<decltype(std::declval<O const &&>().value()), T const &&>), "type: value() keeps const and value category");
  vp_assert((std::is_same_v<decltype(std::declval<O &>().operator->()), T *>) && (std::is_same_v<decltype(std::declval<O const &>().operator->()), T const *>), "type: operator-> keeps const");
  vp_assert((std::is_same_v<decltype(std::declval<O const &>().has_value()), bool>) && (std::is_same_v<decltype(static_cast<bool>(std::declval<O const &>())), bool>), "type: has_value() and conversion to bool yield bool");
  vp_assert((std::is_same_v<decltype(std::declval<O &>() = std::nullopt), O &>) , "type: assignment of nullopt returns a reference to the optional");
  vp_assert((std::is_same_v<decltype(std::declval<O &>().reset()), void>), "type: reset() returns nothing");
  vp_assert((std::is_same_v<decltype(std::declval<O const &>() == std::nullopt), bool>) && (std::is_same_v<decltype(std::nullopt != std::declval<O const &>()), bool>), "type: comparisons with nullopt yield bool");
  if constexpr (std::is_copy_constructible_v<T>)
    vp_assert((std::is_same_v<decltype(std::declval<O const &>().value_or(std::declval<T const &>())), std::remove_cv_t<T>>), "type: value_or returns the payload type by value");
  if constexpr (std::is_move_constructible_v<T>)
    vp_assert((std::is_same_v<decltype(std::declval<O &&>().value_or(std::declval<T>())), std::remove_cv_t<T>>), "type: value_or returns the payload type by value");
  if constexpr (std::is_copy_assignable_v<O>)
    vp_assert((std::is_same_v<decltype(std::declval<O &>() = std::declval<O const &>()), O &>), "type: copy assignment returns a reference to the optional");
  if constexpr (std::is_move_assignable_v<O>)
    vp_assert((std::is_same_v<decltype(std::declval<O &>() = std::declval<O>()), O &>), "type: move assignment returns a reference to the optional");
  vp_cover("end");
}
// Hashing is enabled exactly when the payload is hashable.
template <class O>
void facts_hash()
{
  using T = std::remove_const_t<typename O::value_type>;
  constexpr bool h = std::is_default_constructible_v<std::hash<T>>;
  using H = std::hash<O>;
  vp_assert(std::is_default_constructible_v<H> == h && std::is_copy_constructible_v<H> == h && std::is_copy_assignable_v<H> == h && std::is_move_constructible_v<H> == h, "type: hashing is enabled exactly when the payload is hashable");
  vp_assert((std::is_invocable_v<H const &, O const &> == h) && (std::is_invocable_v<H const &, O &> == h), "type: hashing is enabled exactly when the payload is hashable");
  vp_cover("end");
}
struct NoHash { int v; };
enum class EnH : short { a };

//------------------------------------------------------------------------------------------------ C09, C21
template <class O, bool Compressed>
void facts_size()
{
  using T = typename O::value_type;
  if constexpr (Compressed) {
    vp_assert(sizeof(O) == sizeof(T), "size: the optional has exactly the size of its payload");
    vp_assert(alignof(O) == alignof(T), "size: the optional has exactly the alignment of its payload");
    vp_assert(sizeof(O[3]) == sizeof(T[3]), "size: an array of optionals has the size of an array of payloads");
  }
  else {
    vp_assert(sizeof(O) == sizeof(std::optional<T>), "size: the optional has exactly the size of the std::optional");
    vp_assert(alignof(O) == alignof(std::optional<T>), "size: the optional has exactly the alignment of the std::optional");
  }
  vp_assert(O::is_compressed == Compressed, "size: is_compressed reports the truth");
  vp_assert(O::is_tiny_optional, "size: is_tiny_optional is true");
  vp_assert(tiny::is_tiny_optional_v<O> && tiny::is_tiny_optional_v<O const>, "size: is_tiny_optional_v is true for tiny optionals");
  vp_cover("end");
}
template <class T>
void facts_not_optional()
{
  vp_assert(!tiny::is_tiny_optional_v<T>, "size: is_tiny_optional_v is false for other types");
  vp_cover("end");
}
template <class K> void c_size_sep() { facts_size<typename K::O, false>(); }
template <class K> void c_size_bit() { facts_size<typename K::O, !VP_NO_BITS>(); }
template <class K> void c_size_mem() { facts_size<typename K::O, !VP_NO_MEMBER>(); }
template <class K> void c_size_inp() { facts_size<typename K::O, true>(); }
template <int N, int A>
struct alignas(A) Blob
{
  unsigned char b[N];
};
template <int A, int... N>
void facts_blobs()
{
  (facts_size<tiny::optional<Blob<N, A>>, false>(), ...);
}
template <class T>
struct InPair
{
  char before;
  T m;
  short after;
};

// Contract of the function that decides whether a sentinel constant is representable.
// Not part of all.h: it names an internal function, and a tree that renamed it is decided by the acceptance tests alone.
#pragma once
#include "kits.h"

//------------------------------------------------------------------------------------------------ C08
// IsIntegralInRange<T>(v) iff converting v to T keeps the number.
template <class T, class S>
void c_in_range()
{
  typename VUInt<sizeof(S)>::type const raw = static_cast<typename VUInt<sizeof(S)>::type>(vp_nondet("v", 8 * sizeof(S)));
  S v;
  std::memcpy(&v, &raw, sizeof(S));
  T const t = static_cast<T>(v);
  bool const representable = static_cast<S>(t) == v && (t < T(0)) == (v < S(0));
  vp_assert(tiny::impl::IsIntegralInRange<T>(v) == representable, "post: IsIntegralInRange<T>(v) iff v is representable in T");
  vp_cover("end");
}


// Contract language.  A contract is an ordinary C++ function; these intrinsics give it a logic:
//   vp_nondet   an arbitrary value                 vp_assume  precondition / invariant assumed on entry
//   vp_assert   obligation (post-condition)        vp_havoc   arbitrary bytes
//   vp_birth/vp_kill/vp_val/...  ghost lifetime and ghost value of abstract payload and flag objects
//   vp_protect  frame condition (no write allowed) vp_builder while on, UB checks constrain the pre-state
//   vp_uf*      uninterpreted functions            vp_throws  a payload operation may throw here
// The VC generator (tools/vcgen) interprets them symbolically; spec/vp_native.cpp executes them for replay.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <memory>
#include <new>
#include <optional>
#include <type_traits>
#include <utility>

using u64 = unsigned long long;

extern "C" {
u64 vp_nondet(const char * tag, int bits) noexcept;
void vp_assume(bool) noexcept;
void vp_assert(bool, const char * label) noexcept;
void vp_cover(const char * label) noexcept;
void vp_havoc(void const volatile * p, int n) noexcept;
void vp_birth(void const volatile * p, int size, int kind, u64 val) noexcept;
void vp_kill(void const volatile * p, int kind) noexcept;
bool vp_is_live(void const volatile * p, int kind) noexcept;
u64 vp_val(void const volatile * p, int kind) noexcept;
void vp_setval(void const volatile * p, int kind, u64 val) noexcept;
int vp_live_in(void const volatile * p, int n, int kind) noexcept;
int vp_live_count(int kind) noexcept;
void vp_protect(void const volatile * p, int n, const char * label) noexcept;
void vp_unprotect() noexcept;
void vp_builder(int on) noexcept;
void vp_expect_assert(int on) noexcept;
u64 vp_uf1(const char * fn, u64 a) noexcept;
u64 vp_uf2(const char * fn, u64 a, u64 b) noexcept;
int vp_count(const char * tag, int add) noexcept;
bool vp_fork(bool) noexcept;
bool vp_throws(const char * tag) noexcept;
}

struct VpEx
{
  int id;
};

inline bool vp_bool(const char * tag) noexcept
{
  return vp_fork((vp_nondet(tag, 8) & 1) != 0);
}

// Result of looking at an optional through its public observers.
#define VP_THROWS(tag)                                                                                                 \
  do {                                                                                                                 \
    if (vp_throws(tag))                                                                                                \
      throw VpEx{7};                                                                                                   \
  } while (0)

#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
// NOLINTNEXTLINE
#define VP_ENTRY(op, kit)                                                                                              \
  extern "C" void vpc__##op##__##kit()                                                                                 \
  {                                                                                                                    \
    c_##op<kit>();                                                                                                     \
  }

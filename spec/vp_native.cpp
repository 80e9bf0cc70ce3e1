// Native meaning of the contract language: runs a compiled contract on one tape (replay of a counterexample) or on
// pseudo random tapes (bounded stand-in).  Exit: 0 held, 1 obligation failed, 77 precondition false, 78 tape diverged.
#include <cstdio>
#include <cstdlib>
#include <csetjmp>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <vector>
#include <csignal>
#include <cstdint>
#include <sys/mman.h>
#include <ucontext.h>

using u64 = unsigned long long;
extern "C" void VP_MAIN();

namespace
{
struct Ent { std::string tag; int bits; u64 val; };
std::vector<Ent> tape;
size_t pos = 0;
bool randomMode = false;
u64 rng = 1;
bool builder = false, expectAssert = false;
struct Key { char const * p; int kind; bool operator<(Key const & o) const { return p != o.p ? p < o.p : kind < o.kind; } };
struct Val { int size; u64 v; };
std::map<Key, Val> ghost;
std::map<std::string, int> counts;
struct Prot { unsigned char const * p; std::vector<unsigned char> was; std::string label; };
std::vector<Prot> prot;
std::vector<u64> recent;
jmp_buf again;
int ended = 0;
std::string trace;

u64 rnd()
{
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return rng * 0x2545F4914F6CDD1Dull;
}
[[noreturn]] void stop(int rc)
{
  std::fflush(stdout);
  std::_Exit(rc);
}
[[noreturn]] void failed(std::string const & label)
{
  std::printf("FAILED %s\n", label.c_str());
  if (randomMode)
    std::printf("tape: %s\n", trace.c_str());
  stop(1);
}
u64 mask(u64 v, int bits) { return bits >= 64 ? v : v & ((1ull << bits) - 1); }
u64 gen(std::string const & tag, int bits)
{
  static u64 const special[] = {0, 1, 2, 42, 0xfe, 0xff, 0x7fedcba9ull, 0x7ff8fedcba987654ull, 0xffff7fffffffffffull, 0xfffffff7ull, 0x8000, 0x7fff,
                                0x80000000ull, 0xffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x7ff8000000000000ull, 0x7ff0000000000000ull, 0x7fc00000ull,
                                0x4045000000000000ull, 0xbf800000ull, 5, 6, 7, 8, 9, 200, 0xfffffffbull, 0xfffffffeull, 97, 120};
  u64 v;
  switch (rnd() % 4) {
  case 0: v = rnd(); break;
  case 1: v = special[rnd() % (sizeof(special) / sizeof(*special))]; break;
  case 2: v = recent.empty() ? rnd() : recent[rnd() % recent.size()]; break;
  default: v = rnd() & 1; break;
  }
  v = mask(v, bits);
  if (tag.compare(0, 7, "throws:") == 0)
    v = rnd() % 4 == 0;
  return v;
}
u64 next(std::string const & tag, int bits)
{
  if (randomMode) {
    u64 const v = gen(tag, bits);
    trace += tag + "=" + std::to_string(v) + " ";
    return v;
  }
  while (pos < tape.size() && tape[pos].tag[0] == '#')
    ++pos;
  if (pos >= tape.size())
    return 0;
  Ent const & e = tape[pos++];
  if (e.tag != tag || e.bits != bits) {
    std::printf("DIVERGED at %zu: tape has %s/%d, execution asks for %s/%d\n", pos - 1, e.tag.c_str(), e.bits, tag.c_str(), bits);
    stop(78);
  }
  return e.val;
}
char const * cp(void const volatile * p) { return static_cast<char const *>(const_cast<void const *>(p)); }
void checkProt()
{
  for (auto & q : prot)
    if (std::memcmp(q.p, q.was.data(), q.was.size()) != 0)
      failed("FRAME: write to " + q.label);
}
// A write that stores the value already there breaks a frame condition as well.  With VP_WATCH set, the pages that hold
// protected bytes are write protected; a write to another byte of such a page is single stepped.
bool watch = false;
alignas(16) char altStack[1 << 16];
void pages(int mode)
{
  for (auto & q : prot) {
    auto b = reinterpret_cast<std::uintptr_t>(q.p) & ~std::uintptr_t(4095);
    auto e = (reinterpret_cast<std::uintptr_t>(q.p) + q.was.size() + 4095) & ~std::uintptr_t(4095);
    mprotect(reinterpret_cast<void *>(b), e - b, mode);
  }
}
void onTrap(int, siginfo_t *, void * c)
{
  static_cast<ucontext_t *>(c)->uc_mcontext.gregs[REG_EFL] &= ~0x100;
  pages(PROT_READ);
}
void onSegv(int, siginfo_t * si, void * c)
{
  pages(PROT_READ | PROT_WRITE);
  auto const * a = static_cast<unsigned char const *>(si->si_addr);
  bool ours = false;
  for (auto & q : prot) {
    if (a >= q.p && a < q.p + q.was.size())
      failed("FRAME: write to " + q.label);
    ours = ours || (a >= q.p - 8192 && a < q.p + q.was.size() + 8192);
  }
  if (!ours) {
    std::printf("crash at %p\n", si->si_addr);
    stop(139);
  }
  static_cast<ucontext_t *>(c)->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
void startWatch()
{
  watch = true;
  stack_t st = {};
  st.ss_sp = altStack; st.ss_size = sizeof altStack;
  sigaltstack(&st, nullptr);
  struct sigaction sa = {};
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  sa.sa_sigaction = onSegv;
  sigaction(SIGSEGV, &sa, nullptr);
  sa.sa_sigaction = onTrap;
  sigaction(SIGTRAP, &sa, nullptr);
}
// The contract may run while other exceptions are being unwound (std::uncaught_exceptions).
void enter(unsigned ambient)
{
  if (ambient == 0) {
    try {
      VP_MAIN();
    }
    catch (...) {
      failed("ESCAPE: unexpected exception leaves the contract");
    }
    return;
  }
  struct InUnwinding
  {
    unsigned n;
    ~InUnwinding() { enter(n); }
  };
  try {
    InUnwinding u{ambient - 1};
    throw 1;
  }
  catch (int) {
  }
}
void leave(int why)
{
  ended = why;
  std::longjmp(again, 1);
}
} // namespace

extern "C" {
u64 vp_nondet(const char * tag, int bits) noexcept
{
  u64 const v = next(tag, bits);
  recent.push_back(v);
  if (recent.size() > 6)
    recent.erase(recent.begin());
  return v;
}
void vp_assume(bool c) noexcept
{
  if (c)
    return;
  if (randomMode)
    leave(77);
  std::printf("ASSUMPTION FALSE\n");
  stop(77);
}
void vp_assert(bool c, const char * label) noexcept
{
  if (!c)
    failed(label);
}
void vp_cover(const char * label) noexcept
{
  if (!randomMode)
    std::printf("reached: %s\n", label);
}
void vp_havoc(void const volatile * p, int n) noexcept
{
  auto * q = const_cast<unsigned char *>(static_cast<unsigned char const volatile *>(p));
  if (randomMode) {
    for (int i = 0; i < n; i += 8) {
      u64 v = next("havoc", 64);
      std::memcpy(q + i, &v, static_cast<size_t>(n - i < 8 ? n - i : 8));
    }
    // Make it likely that the pre-state describes the value chosen before.
    if (!recent.empty() && rnd() % 2) {
      u64 v = recent[rnd() % recent.size()];
      int at = rnd() % 2 ? 0 : static_cast<int>(rnd() % static_cast<unsigned>(n));
      std::memcpy(q + at, &v, static_cast<size_t>(n - at < 8 ? n - at : 8));
    }
    if (n > 1 && rnd() % 2) { // a flag at the end
      int at = n == 1 ? 0 : n / 2 + static_cast<int>(rnd() % static_cast<unsigned>(n - n / 2));
      q[at] = rnd() & 1;
    }
    return;
  }
  for (int i = 0; i < n; ++i)
    q[i] = static_cast<unsigned char>(next("havoc", 8));
}
void vp_birth(void const volatile * p, int size, int kind, u64 val) noexcept
{
  char const * c = cp(p);
  for (auto & g : ghost)
    if (g.first.p < c + size && c < g.first.p + g.second.size)
      failed("LIFETIME: object created in storage that already holds a live object");
  ghost[Key{c, kind}] = Val{size, val};
}
void vp_kill(void const volatile * p, int kind) noexcept
{
  if (!ghost.erase(Key{cp(p), kind}))
    failed("LIFETIME: destruction of an object that is not alive");
}
bool vp_is_live(void const volatile * p, int kind) noexcept
{
  return ghost.count(Key{cp(p), kind}) != 0;
}
u64 vp_val(void const volatile * p, int kind) noexcept
{
  auto it = ghost.find(Key{cp(p), kind});
  if (it == ghost.end())
    failed("LIFETIME: use of an object that is not alive");
  return it->second.v;
}
void vp_setval(void const volatile * p, int kind, u64 val) noexcept
{
  auto it = ghost.find(Key{cp(p), kind});
  if (it == ghost.end())
    failed("LIFETIME: use of an object that is not alive");
  it->second.v = val;
}
int vp_live_in(void const volatile * p, int n, int kind) noexcept
{
  char const * c = cp(p);
  int r = 0;
  for (auto & g : ghost)
    if (g.first.p < c + n && c < g.first.p + g.second.size && (kind < 0 || g.first.kind == kind))
      ++r;
  return r;
}
int vp_live_count(int kind) noexcept
{
  int r = 0;
  for (auto & g : ghost)
    r += g.first.kind == kind;
  return r;
}
void vp_protect(void const volatile * p, int n, const char * label) noexcept
{
  auto const * q = const_cast<unsigned char const *>(static_cast<unsigned char const volatile *>(p));
  if (watch)
    pages(PROT_READ | PROT_WRITE);
  prot.push_back(Prot{q, std::vector<unsigned char>(q, q + n), label});
  if (watch)
    pages(PROT_READ);
}
void vp_unprotect() noexcept
{
  if (watch)
    pages(PROT_READ | PROT_WRITE);
  checkProt();
  prot.clear();
}
void vp_builder(int on) noexcept { builder = on != 0; }
void vp_expect_assert(int on) noexcept { expectAssert = on != 0; }
static u64 mix(char const * fn, u64 a, u64 b)
{
  u64 h = 0x9E3779B97F4A7C15ull;
  for (; *fn; ++fn)
    h = (h ^ static_cast<unsigned char>(*fn)) * 0x100000001B3ull;
  h ^= a + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
  h ^= b + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
  return h;
}
u64 vp_uf1(const char * fn, u64 a) noexcept { return randomMode ? mix(fn, a, 1) : next(std::string("uf:") + fn, 64); }
u64 vp_uf2(const char * fn, u64 a, u64 b) noexcept { return randomMode ? mix(fn, a, b) : next(std::string("uf:") + fn, 64); }
int vp_count(const char * tag, int add) noexcept { return counts[tag] += add; }
bool vp_fork(bool b) noexcept { return b; }
bool vp_throws(const char * tag) noexcept
{
  return !builder && (next(std::string("throws:") + tag, 8) & 1);
}
void __assert_fail(const char * expr, const char * file, unsigned line, const char *) noexcept
{
  if (expectAssert) {
    if (randomMode)
      leave(0);
    std::printf("assertion fired as required: %s\n", expr);
    stop(0);
  }
  if (builder) {
    if (randomMode)
      leave(77);
    stop(77);
  }
  failed(std::string("ASSERT: debug assertion fires: ") + expr + " (" + file + ":" + std::to_string(line) + ")");
}
}

int main(int argc, char ** argv)
{
  std::set_terminate([] { failed("TERMINATE: std::terminate reached"); });
  if (argc > 2 && std::string(argv[1]) == "--random") {
    randomMode = true;
    long const n = std::atol(argv[2]);
    u64 const seed = argc > 3 ? std::strtoull(argv[3], nullptr, 10) : 1;
    static long held = 0, skipped = 0;
    for (static long i = 0; i < n; ++i) {
      rng = (seed * 1000003ull + static_cast<u64>(i) + 1) * 0x9E3779B97F4A7C15ull;
      if (!rng) rng = 1;
      ghost.clear(); counts.clear(); prot.clear(); recent.clear(); trace.clear();
      builder = expectAssert = false;
      ended = 0;
      if (setjmp(again) == 0) {
        enter(i % 4 == 3 ? 1u : 0u);
        checkProt();
      }
      if (ended == 77) ++skipped; else ++held;
    }
    std::printf("random: %ld executions satisfied the precondition and held, %ld skipped\n", held, skipped);
    stop(0);
  }
  if (argc > 1) {
    if (FILE * f = std::fopen(argv[1], "r")) {
      char line[512];
      while (std::fgets(line, sizeof line, f)) { // "<bits> <value> <tag>"
        int bits; u64 v; int at = 0;
        if (std::sscanf(line, "%d %llu %n", &bits, &v, &at) >= 2 && at) {
          std::string tag = line + at;
          while (!tag.empty() && (tag.back() == '\n' || tag.back() == '\r')) tag.pop_back();
          tape.push_back(Ent{tag, bits, v});
        }
      }
      std::fclose(f);
    }
  }
  unsigned ambient = 0;
  for (auto & e : tape)
    if (e.tag == "#ambient")
      ambient = static_cast<unsigned>(e.val & 3);
  if (std::getenv("VP_WATCH"))
    startWatch();
  enter(ambient);
  if (watch)
    pages(PROT_READ | PROT_WRITE);
  checkProt();
  std::printf("held on this tape\n");
  stop(0);
}

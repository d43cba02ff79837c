// Native runtime of the specification vocabulary: the same harness text that
// the verifier executes symbolically is run on concrete inputs here (replay of
// counterexamples, search of failing inputs, non-vacuity of preconditions).
#include <boost/multiprecision/cpp_int.hpp>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
#include "vp.h"
#include "walnut/big_int.h"

typedef boost::multiprecision::cpp_int cpp_int;

namespace {
struct Discard {};
struct Failure { std::string label; };
struct Input { std::string name, kind, value; };

std::map<std::string, void (*)()>& registry() {
  static std::map<std::string, void (*)()> r;
  return r;
}
std::vector<cpp_int> table;
std::vector<Input> inputs, replay;
size_t replay_pos = 0;
bool replaying = false;
std::mt19937_64 rng;
int strategy = 0;
std::vector<cpp_int> pool;           // values used so far in this trial
std::map<std::string, long> covers, ensures;
std::string out_file;
volatile bool active = false;
std::string current_label;

// ---- allocation tracking
struct Rec { bool freed; };
int64_t live = 0;
struct AllocList { void* p[65536]; size_t n; bool freed[65536]; } al;
bool tracking = false;

void write_result(const std::string& label) {
  if (out_file.empty()) return;
  FILE* f = fopen(out_file.c_str(), "w");
  if (!f) return;
  std::string l = label;
  for (char& c : l) if (c == '\n') c = ' ';
  fprintf(f, "label\t%s\n", l.c_str());
  for (auto& i : inputs) fprintf(f, "input\t%s\t%s\t%s\n", i.name.c_str(), i.kind.c_str(), i.value.c_str());
  fclose(f);
}

void on_signal(int s) {
  const char* n = s == SIGVTALRM ? "does not terminate (20 s)" : s == SIGFPE ? "arithmetic trap (SIGFPE)" : s == SIGSEGV ? "memory fault (SIGSEGV)" :
    s == SIGILL || s == SIGTRAP ? "undefined behaviour (trap)" : "abort";
  tracking = false;
  write_result(n);
  _exit(3);
}

uint64_t put(const cpp_int& v) { table.push_back(v); return table.size() - 1; }

uint64_t r64() { return rng(); }
uint64_t below(uint64_t n) { return n ? r64() % n : 0; }

cpp_int rand_bits(unsigned bits) {
  cpp_int v = 0;
  for (unsigned i = 0; i < bits; i += 64) v = (v << 64) | cpp_int(r64());
  v >>= (bits + 63) / 64 * 64 - bits;
  return v;
}
cpp_int rand_z() {
  cpp_int v;
  int s = strategy;
  if (!pool.empty() && below(4) == 0) {
    v = pool[below(pool.size())];
    switch (below(6)) {
      case 0: break;
      case 1: v = -v; break;
      case 2: v += 1; break;
      case 3: v -= 1; break;
      case 4: v *= 2; break;
      case 5: v *= pool[below(pool.size())]; break;
    }
    if (boost::multiprecision::msb(boost::multiprecision::abs(v) + 1) > 2000) v = 1;
    pool.push_back(v);
    return v;
  }
  if (s == 3) s = (int)below(3);
  if (s == 0) v = cpp_int((int64_t)below(5)) - 2;
  else if (s == 1) {
    // boundaries of half words and words
    static const int bits[] = {0, 1, 7, 31, 32, 33, 62, 63, 64, 65, 95, 127, 128, 129, 191, 192};
    v = cpp_int(1) << bits[below(16)];
    if (below(3) == 0) v = v + (cpp_int(1) << bits[below(16)]);
    if (below(4) == 0) v = v - (cpp_int(1) << bits[below(16)]);
    v += (int64_t)below(5) - 2;
    if (below(2)) v = -v;
  } else if (s == 2) {
    static const int bits[] = {3, 8, 20, 31, 40, 64, 70, 130, 200};
    v = rand_bits(bits[below(9)]);
    if (below(2)) v = -v;
  } else if (s == 4) {
    v = cpp_int((int64_t)below(21)) - 10;
  }
  pool.push_back(v);
  return v;
}
const Input* next_replay(const char* name) {
  if (!replaying) return nullptr;
  if (replay_pos >= replay.size()) throw Discard();
  return &replay[replay_pos++];
}
void record(const char* n, const char* k, const std::string& v) { inputs.push_back({n, k, v}); }

cpp_int from_words(const walnut::BigInt& b) {
  cpp_int v = 0;
  size_t n = b.used_words();
  std::vector<uint64_t> w(n);
  for (size_t i = 0; i < n; i++) w[i] = b.word(i).low_uint64();
  boost::multiprecision::import_bits(v, w.begin(), w.end(), 64, false);
  if ((int64_t)b.word(n - 1).low_uint64() < 0) v -= cpp_int(1) << (64 * n);
  return v;
}
void to_words(const cpp_int& v, walnut::BigInt& b) {
  size_t n = 1;
  while (!(v >= -(cpp_int(1) << (64 * n - 1)) && v < (cpp_int(1) << (64 * n - 1)))) n++;
  cpp_int u = v;
  if (u < 0) u += cpp_int(1) << (64 * n);
  b.words_.resize(n);
  for (size_t i = 0; i < n; i++) {
    b.words_[i] = walnut::BigUIntWord{(unsigned long)(uint64_t)(u & cpp_int(~0ull))};
    u >>= 64;
  }
}
}  // namespace

cpp_int vpn_value(uint64_t h) { return table[h]; }

VpReg::VpReg(const char* n, void (*f)()) { registry()[n] = f; }

void* operator new(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) abort();
#ifdef VP_TRACK_MALLOC
  return p;
#endif
  if (tracking && al.n < 65536) { al.p[al.n] = p; al.freed[al.n] = false; al.n++; live++; }
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
static void do_delete(void* p) {
  if (!p) return;
#ifdef VP_TRACK_MALLOC
  free(p);
  return;
#endif
  if (tracking) {
    for (size_t i = al.n; i-- > 0;)
      if (al.p[i] == p) {
        if (al.freed[i]) { write_result("double free"); _exit(3); }
        al.freed[i] = true;
        live--;
        return;                       // kept in quarantine until the trial ends
      }
  }
  free(p);
}
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }

#ifdef VP_TRACK_MALLOC
// the code under test allocates with malloc: count, poison and guard it
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
static const size_t GUARD = 64;
static void bad(const char* what) { tracking = false; write_result(what); _exit(3); }
static size_t al_size[65536];
extern "C" void* malloc(size_t n) {
  if (!tracking || al.n >= 65536) return __libc_malloc(n);
  char* p = (char*)__libc_malloc(n + 2 * GUARD);
  memset(p, 0xA5, GUARD);
  memset(p + GUARD, 0xC3, n);
  memset(p + GUARD + n, 0xA5, GUARD);
  al.p[al.n] = p + GUARD; al.freed[al.n] = false; al_size[al.n] = n; al.n++; live++;
  return p + GUARD;
}
static void guards(size_t i) {
  unsigned char* p = (unsigned char*)al.p[i];
  for (size_t k = 0; k < GUARD; k++)
    if (p[-1 - (long)k] != 0xA5 || p[al_size[i] + k] != 0xA5) bad("write outside of an allocation");
  if (al.freed[i])
    for (size_t k = 0; k < al_size[i]; k++) if (p[k] != 0xDD) bad("write to freed memory");
}
extern "C" void free(void* q) {
  if (!q) return;
  for (size_t i = al.n; i-- > 0;)
    if (al.p[i] == q) {
      if (al.freed[i]) bad("double free");
      guards(i);
      memset(q, 0xDD, al_size[i]);
      al.freed[i] = true; live--;
      return;
    }
  __libc_free(q);
}
static void end_trial(bool ok) {
  if (ok) for (size_t i = 0; i < al.n; i++) guards(i);
  for (size_t i = 0; i < al.n; i++) __libc_free((char*)al.p[i] - GUARD);
  al.n = 0;
}
#else
static void end_trial(bool) {
  for (size_t i = 0; i < al.n; i++) if (al.freed[i]) free(al.p[i]);
  al.n = 0;
}
#endif
extern "C" {
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) throw() {
  (void)f; (void)l;
  tracking = false;
  write_result(std::string("assert ") + e + " in " + fn);
  _exit(3);
}
void vp_assume(bool c) { if (!c) throw Discard(); }
void vp_by(bool g, const char* l, bool, bool, bool, bool) { vp_ensure(g, l); }
void vp_ensure(bool c, const char* label) {
  bool t = tracking; tracking = false;
  ensures[label]++;
  tracking = t;
  if (!c) { tracking = false; throw Failure{label}; }
}
void vp_slice() {}
bool vp_native() { return true; }
void vp_cover(const char* label) { bool t = tracking; tracking = false; covers[label]++; tracking = t; }
struct NoTrack { bool t; NoTrack() : t(tracking) { tracking = false; } ~NoTrack() { tracking = t; } };

int64_t vp_int(const char* name, int64_t lo, int64_t hi) {
  NoTrack nt;
  int64_t v;
  if (const Input* i = next_replay(name)) v = strtoll(i->value.c_str(), nullptr, 10);
  else {
    uint64_t range = (uint64_t)hi - (uint64_t)lo;
    switch (below(4)) {
      case 0: v = lo + (int64_t)below(range < 4 ? range + 1 : 4); break;
      case 1: v = hi - (int64_t)below(range < 4 ? range + 1 : 4); break;
      case 2: { cpp_int z = rand_z(); if (z < lo || z > hi) v = range + 1 ? (int64_t)((uint64_t)lo + r64() % (range + 1)) : (int64_t)r64(); else v = (int64_t)z; break; }
      default: v = range + 1 ? (int64_t)((uint64_t)lo + r64() % (range + 1)) : (int64_t)r64();
    }
  }
  if (v < lo || v > hi) throw Discard();
  record(name, "int", std::to_string(v));
  return v;
}
uint64_t vp_u64(const char* name) {
  NoTrack nt;
  uint64_t v;
  if (const Input* i = next_replay(name)) v = strtoull(i->value.c_str(), nullptr, 10);
  else {
    switch (below(3)) {
      case 0: v = r64(); break;
      case 1: { cpp_int z = rand_z(); v = (uint64_t)(z & cpp_int(~0ull)); break; }
      default: { v = 0; int k = 1 + below(3); while (k--) v ^= (1ull << below(64)); if (below(2)) v -= 1; if (below(4) == 0) v = ~v; }
    }
  }
  record(name, "u64", std::to_string(v));
  return v;
}
bool vp_bool(const char* name) {
  NoTrack nt;
  bool v;
  if (const Input* i = next_replay(name)) v = i->value != "0"; else v = r64() & 1;
  record(name, "bool", v ? "1" : "0");
  return v;
}
int vp_choice(const char* name, int n) {
  NoTrack nt;
  int v;
  if (const Input* i = next_replay(name)) v = atoi(i->value.c_str()); else v = (int)below(n);
  if (v < 0 || v >= n) throw Discard();
  record(name, "choice", std::to_string(v));
  return v;
}
bool vp_split(bool c) { return c; }
bool vp_and(bool a, bool b) { return a && b; }
bool vp_or(bool a, bool b) { return a || b; }
bool vp_not(bool a) { return !a; }
bool vp_implies(bool a, bool b) { return !a || b; }
bool vp_iff(bool a, bool b) { return a == b; }
bool vp_ite(bool c, bool a, bool b) { return c ? a : b; }
uint64_t vpz_var(const char* name) {
  NoTrack nt;
  cpp_int v;
  if (const Input* i = next_replay(name)) v = cpp_int(i->value); else v = rand_z();
  record(name, "z", v.str());
  return put(v);
}
uint64_t vpz_const(int64_t v) { NoTrack nt; return put(cpp_int(v)); }
uint64_t vpz_u64(uint64_t v) { NoTrack nt; return put(cpp_int(v)); }
uint64_t vpz_add(uint64_t a, uint64_t b) { NoTrack nt; return put(table[a] + table[b]); }
uint64_t vpz_sub(uint64_t a, uint64_t b) { NoTrack nt; return put(table[a] - table[b]); }
uint64_t vpz_mul(uint64_t a, uint64_t b) { NoTrack nt; return put(table[a] * table[b]); }
bool vpz_lt(uint64_t a, uint64_t b) { return table[a] < table[b]; }
bool vpz_le(uint64_t a, uint64_t b) { return table[a] <= table[b]; }
bool vpz_eq(uint64_t a, uint64_t b) { return table[a] == table[b]; }
uint64_t vpz_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t vpz_of(const void* p) { NoTrack nt; return put(from_words(*(const walnut::BigInt*)p)); }
void vpz_make(void* p, uint64_t z) { NoTrack nt; to_words(table[z], *(walnut::BigInt*)p); }
void vpz_make_raw(void* p, uint64_t z, int64_t extra) {
  NoTrack nt;
  walnut::BigInt& b = *(walnut::BigInt*)p;
  to_words(table[z], b);
  walnut::BigUIntWord s{table[z] < 0 ? (int64_t)-1 : (int64_t)0};
  while (extra-- > 0) b.words_.push_back(s);
}
uint64_t vpz_words(const void* p) { NoTrack nt; return put(cpp_int(((const walnut::BigInt*)p)->used_words())); }
uint64_t vpz_pow2w(uint64_t q, uint64_t s) { NoTrack nt; return put(cpp_int(1) << (unsigned)(q * 64 + s)); }
bool vpz_canonical(const void* p) {
  NoTrack nt;
  const walnut::BigInt& b = *(const walnut::BigInt*)p;
  size_t n = b.used_words();
  if (n == 1) return true;
  int64_t hi = (int64_t)b.word(n - 1).low_uint64(), lo = (int64_t)b.word(n - 2).low_uint64();
  return !((hi == 0 && lo >= 0) || (hi == -1 && lo < 0));
}
// boolean filters
static std::vector<size_t>* g_ids;
static std::vector<size_t> g_ids_copy;
struct VpInfo { size_t interior, border; int64_t pwn; };
static std::vector<VpInfo> g_info;
void vpf_make_ids(void* p) {
  std::vector<size_t>& v = *new (p) std::vector<size_t>;
  uint64_t n = (uint64_t)vp_int("n_ids", 0, 6);
  for (uint64_t i = 0; i < n; i++) v.push_back((uint64_t)vp_int("id", 0, 5));
  NoTrack nt;
  g_ids_copy = v;
}
void vpf_make_info(void* p) {
  std::vector<VpInfo>& v = *new (p) std::vector<VpInfo>;
  uint64_t n = (uint64_t)vp_int("n_info", 0, 5);
  for (uint64_t i = 0; i < n; i++) {
    VpInfo x;
    x.interior = (uint64_t)vp_int("interior", 0, 2) * (vp_int("many", 0, 7) < 7 ? 1 : 256);
    x.border = (uint64_t)vp_int("border", 0, 1);
    x.pwn = vp_int("winding", -2, 2);
    if (vp_int("far", 0, 7) == 7) x.pwn *= (int64_t)1 << 40;
    v.push_back(x);
  }
  NoTrack nt;
  g_info = v;
}
uint64_t vpf_ids() { return g_ids_copy.size(); }
bool vpf_any(int kind, int which) {
  for (size_t j = 0; j < g_ids_copy.size(); j++) {
    size_t id = g_ids_copy[j];
    bool known = id < g_info.size();
    bool now, open = known && (g_info[id].interior || g_info[id].border);
    if (kind == 0 || j == 0) now = known && g_info[id].pwn > 0;
    else now = !known || g_info[id].pwn >= 0;
    bool t = which == 0 ? now && !open : which == 1 ? !now && !open : which == 2 ? open : which == 3 ? now : !now;
    if (t) return true;
  }
  return false;
}
// word containers
uint64_t vpw_size(const char* name) { return (uint64_t)vp_int(name, 1, 12); }
void vpw_watch(uint64_t) {}
void vpw_make(void* p) {
  walnut::BigIntWords& w = *(walnut::BigIntWords*)p;
  uint64_t cap = (uint64_t)vp_int("capacity", 0, 8), n = (uint64_t)vp_int("n_extra", 0, 8);
  if (n > cap) throw Discard();
  w.resize_without_copy(cap + 1);
  w.resize_without_copy(n + 1);
  for (uint64_t i = 0; i <= n; i++) w[i] = walnut::BigUIntWord{(unsigned long)(i == 0 ? vp_u64("first") : vp_u64("word"))};
}
bool vpw_valid(const void* p) {
  NoTrack nt;
  const walnut::BigIntWords& w = *(const walnut::BigIntWords*)p;
  if (!w.extra_) return w.extra_size_ == 0;
  if (w.extra_size_ > w.extra_capacity()) return false;
  char* base = (char*)w.extra_ - 8;
  for (size_t i = 0; i < al.n; i++)
    if (al.p[i] == base) {
#ifdef VP_TRACK_MALLOC
      if (al_size[i] < 8 * (w.extra_capacity() + 1)) return false;
#endif
      return !al.freed[i];
    }
  return false;
}
uint64_t vpz_pow2(uint64_t k) { NoTrack nt; return put(cpp_int(1) << (unsigned)k); }
void* vp_alloc(size_t n) { NoTrack nt; return calloc(1, n); }
bool vp_is_freed(const void* p) {
  for (size_t i = al.n; i-- > 0;) if (al.p[i] == p) return al.freed[i];
  return false;
}
int64_t vp_live_allocs() { return live; }
}

static void arm(int s) { itimerval t{{0, 0}, {s, 0}}; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
static int run_once(void (*f)(), std::string& label) {
  table.clear(); inputs.clear(); pool.clear();
  al.n = 0; live = 0; replay_pos = 0;
  int r = 0;
  arm(20);
  tracking = true;
  try { f(); } catch (Discard&) { r = 1; } catch (Failure& x) { r = 2; tracking = false; label = x.label; }
  catch (std::exception& x) { r = 2; tracking = false; label = std::string("exception ") + x.what(); }
  tracking = false;
  arm(0);
  end_trial(r == 0);
  return r;
}

int main(int argc, char** argv) {
  // native replay HARNESS FILE OUT | native search HARNESS SEED SECONDS OUT
  for (int s : {SIGFPE, SIGSEGV, SIGILL, SIGTRAP, SIGABRT, SIGVTALRM, SIGBUS}) signal(s, on_signal);
  if (argc < 3) { for (auto& e : registry()) puts(e.first.c_str()); return 0; }
  std::string mode = argv[1], h = argv[2], label;
  auto it = registry().find(h);
  if (it == registry().end()) { fprintf(stderr, "no harness %s\n", h.c_str()); return 4; }
  if (mode == "replay") {
    std::ifstream f(argv[3]);
    out_file = argc > 4 ? argv[4] : "";
    std::string line;
    while (std::getline(f, line)) {
      std::stringstream ss(line);
      std::string k, n, kd, v;
      std::getline(ss, k, '\t');
      if (k != "input") continue;
      std::getline(ss, n, '\t'); std::getline(ss, kd, '\t'); std::getline(ss, v, '\t');
      replay.push_back({n, kd, v});
    }
    replaying = true;
    int r = run_once(it->second, label);
    if (r == 2) { printf("FAIL %s\n", label.c_str()); write_result(label); return 3; }
    puts(r == 1 ? "DISCARDED" : "PASS");
    return r == 1 ? 2 : 0;
  }
  uint64_t seed = strtoull(argv[3], nullptr, 10);
  double secs = atof(argv[4]);
  long maxtrials = argc > 6 ? atol(argv[6]) : 1000000000L;
  out_file = argc > 5 ? argv[5] : "";
  rng.seed(seed * 1000003 + 17);
  timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  long trials = 0, ok = 0;
  int rc = 0;
  for (;; trials++) {
    if (trials >= maxtrials) break;
    if ((trials & 15) == 0) {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
    }
    strategy = trials % 5;
    int r = run_once(it->second, label);
    if (r == 0) ok++;
    if (r == 2) { printf("FAIL %s\n", label.c_str()); write_result(label); rc = 3; break; }
  }
  printf("TRIALS %ld OK %ld\n", trials, ok);
  for (auto& c : covers) printf("COVER\t%ld\t%s\n", c.second, c.first.c_str());
  for (auto& c : ensures) printf("ENSURE\t%ld\t%s\n", c.second, c.first.c_str());
  return rc;
}

// Native side of the harness API: ./native <entry> <counterexample file>
#define VERIF_NATIVE
#include "verif.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <string>
#include <fstream>
#include <sstream>
#include <exception>
VerifEntry *verif_entries = nullptr;
static std::map<std::string, std::pair<char, std::string>> vals;
static std::map<std::string, int> cnt;
static bool allowThrow = false, isReal = false;
static const std::pair<char, std::string> *lookup(const char *n) {
  std::string k = std::string(n) + "#" + std::to_string(cnt[n]++);
  auto it = vals.find(k);
  if (it == vals.end()) { printf("MISSING %s\n", k.c_str()); fflush(stdout); _Exit(78); }
  return &it->second;
}
extern "C" {
long verif_int(const char *n, long, long) { return strtol(lookup(n)->second.c_str(), 0, 10); }
double verif_real(const char *n, double, double) {
  auto *v = lookup(n); uint64_t u = strtoull(v->second.c_str(), 0, 16); double d; memcpy(&d, &u, 8); return d; }
double verif_grid(const char *n, double lo, double hi, double) { return verif_real(n, lo, hi); }
bool verif_bool(const char *n) { return lookup(n)->second == "1"; }
int verif_choose(const char *n, int) { return (int)strtol(lookup(n)->second.c_str(), 0, 10); }
void verif_assume(int c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _Exit(77); } }
void verif_check(int c, const char *m) { if (!c) { printf("CHECK-FAILED %s\n", m); fflush(stdout); _Exit(3); } }
void verif_known(int c, const char *id, const char *m) { if (!c) { printf("KNOWN-FAILED %s %s\n", id, m); fflush(stdout); _Exit(4); } }
void verif_cover(const char *) {}
void verif_observe_d(const char *n, double v) { uint64_t u; memcpy(&u, &v, 8); printf("OBS %s %016lx\n", n, u); }
void verif_observe_i(const char *n, long v) { printf("OBS %s %016lx\n", n, (unsigned long)v); }
int verif_fork(int c) { return c; }
long verif_pick(long v) { return v; }
void verif_allow_throw(int on) { allowThrow = on; }
void verif_end_path(void) { fflush(stdout); _Exit(0); }
void verif_trace(const char *, double) {}
void verif_trace_i(const char *, long) {}
}
static void onExit() { if (allowThrow && isReal) { fflush(stdout); _Exit(0); } }
int main(int argc, char **argv) {
  if (argc < 2) { for (auto *e = verif_entries; e; e = e->next) printf("%s\n", e->name); return 0; }
  if (argc > 2) {
    std::ifstream f(argv[2]); std::string l;
    while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; std::istringstream is(l); std::string k, v; char t; is >> k >> t >> v; vals[k] = {t, v}; } }
  for (auto *e = verif_entries; e; e = e->next) if (!strcmp(e->name, argv[1])) {
    isReal = true; atexit(onExit);
    try { e->fn(); } catch (...) { printf("EXCEPTION\n"); fflush(stdout); _Exit(allowThrow ? 0 : 5); }
    isReal = false; printf("PASSED\n"); fflush(stdout); _Exit(0); }
  fprintf(stderr, "no entry %s\n", argv[1]); return 78;
}

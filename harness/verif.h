// Harness API.  Under symex every verif_* call is modelled by the executor; natively (replay and
// engine validation) the values come from a counterexample file.
#pragma once
#ifndef VERIF_NATIVE  // std::string has to be part of the bitcode
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#endif
#include <cstddef>
#include <vector>
#include <array>
#include <string>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <algorithm>
#include <limits>
#include <cmath>
#include <cassert>
#include <cstdint>
#include <random>
#include <fstream>
#include <sstream>
#include <iostream>
#include <iomanip>
extern "C" {
long verif_int(const char *name, long lo, long hi);
double verif_real(const char *name, double lo, double hi);
double verif_grid(const char *name, double lo, double hi, double quantum);
bool verif_bool(const char *name);
int verif_choose(const char *name, int n);       // case split over 0..n-1
void verif_assume(int c);
void verif_check(int c, const char *msg);         // the property
void verif_known(int c, const char *id, const char *msg);  // property restricted to a listed finding
void verif_cover(const char *name);
void verif_observe_d(const char *name, double v); // compared with the native run
void verif_observe_i(const char *name, long v);
int verif_fork(int c);                            // returns c after a case split
long verif_pick(long v);                          // case split over the values of v
void verif_allow_throw(int on);                   // exceptions / exit end the path silently
void verif_end_path(void);
void verif_trace(const char *name, double v);
void verif_trace_i(const char *name, long v);
}
static inline int vand(int a, int b) { return a & b; }
static inline int vand(int a, int b, int c) { return a & b & c; }
static inline int vand(int a, int b, int c, int d) { return a & b & c & d; }
static inline int vor(int a, int b) { return a | b; }
static inline int vor(int a, int b, int c) { return a | b | c; }
static inline int vimp(int a, int b) { return (a ^ 1) | b; }
static inline int viff(int a, int b) { return (a ^ b) ^ 1; }
// |a-b| <= eps, without branching
static inline int vnear(double a, double b, double eps) { return int(a - b <= eps) & int(b - a <= eps); }
#ifdef VERIF_NATIVE
struct VerifEntry { const char *name; void (*fn)(); VerifEntry *next; };
extern VerifEntry *verif_entries;
#define VERIF_ENTRY(N) extern "C" void N(); static VerifEntry N##_reg{#N, N, nullptr}; \
  static int N##_ini = (N##_reg.next = verif_entries, verif_entries = &N##_reg, 0); \
  extern "C" void N()
#else
#define VERIF_ENTRY(N) extern "C" __attribute__((used)) void N()
#endif

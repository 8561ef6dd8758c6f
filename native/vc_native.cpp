// Native runtime of the harness vocabulary: runs the same contract functions against the real
// library (real headers, real GSL, real std), with inputs from a counterexample or generated.
#include "../contracts/vc.h"
#include <map>
#include <vector>
#include <string>
#include <random>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <gsl/gsl_errno.h>
#include <dlfcn.h>
#include <mutex>
#include <omp.h>
using namespace std;
namespace {
struct Reject {};
map<string, double> given, used;
map<string, pair<int,vector<double>>> fns;
map<string, bool> incr;
vector<double> dict;
mt19937_64 rng(1);
bool smooth = false;
int failures = 0; bool extreme = false; double rtol = 1e-6;
string first_fail;
char *shm; 
recursive_mutex mx;
double U() { return uniform_real_distribution<double>(0, 1)(rng); }
bool look(const string &k, double &v) { auto i = used.find(k); if (i != used.end()) { v = i->second; return true; } i = given.find(k); if (i != given.end()) { v = i->second; used[k] = v; return true; } return false; }
// the ranges of a contract are where sampling concentrates; now and then a value lies outside, where
// the quantity still makes sense and double arithmetic still carries it
void outer(double lo, double hi, double &a, double &b) {
  a = lo; b = hi;
  if (lo == 0 && hi == 1) return;
  if (lo < 0) return;                                  // logarithms: kept in range
  b = hi <= 2 ? 3 * hi : hi <= 10 ? hi : max(hi, 1e10);
}
double gen(double lo, double hi);
double genw(double lo, double hi) {
  double a, b; outer(lo, hi, a, b);
  if (U() < 0.03 && b > hi) { if (hi > 10 && lo >= 0) return exp(::log(max(hi / 1e3, 1e-3)) + (::log(b) - ::log(max(hi / 1e3, 1e-3))) * U()); return a + (b - a) * U(); }
  if (!dict.empty() && U() < 0.1) { double d = dict[rng() % dict.size()] * (U() < 0.5 ? 1 : 1 + 0.5 * U()); if (d >= a && d <= b && (a < 0 || d > 0 || lo == 0)) return d; }
  return gen(lo, hi);
}
double gen(double lo, double hi) {
  double u = U();
  if (!dict.empty() && u < 0.25) {
    double d = dict[rng() % dict.size()];
    double v = U(); if (v < 0.3) d *= 1 + 1e-3 * (U() - 0.5); else if (v < 0.5) d += U() - 0.5; else if (v < 0.6) d = nextafter(d, U() < 0.5 ? -1e300 : 1e300);
    if (d >= lo && d <= hi) return d;
  }
  if (u < 0.30 && lo >= -6) return lo;
  if (u < 0.33 && hi <= 6) return hi;
  double a = max(lo, -5.0), b = min(hi, 5.0);
  if (a > b) { a = lo; b = hi; }
  if (u < 0.75) return a + (b - a) * U();
  if (u < 0.92 && hi >= 1e3) { double s = exp((U() - 0.5) * 10); if (lo < 0 && U() < 0.5) s = -s; if (s >= lo && s <= hi) return s; return a + (b - a) * U(); }
  double k = floor(a + (b - a + 1) * U()); if (k < lo || k > hi) k = a; return k;
}
void record(const string &k, double v) { used[k] = v; }
void fail(const char *id, const string &why) {
  lock_guard<recursive_mutex> g(mx);
  failures++;
  if (first_fail.empty()) {
    ostringstream o; o.precision(17);
    o << "{\"check\": \"" << id << "\", \"why\": \"" << why << "\", \"inputs\": {";
    bool f = true; for (auto &p : used) { o << (f ? "" : ", ") << "\"" << p.first << "\": "; if (std::isfinite(p.second)) o << p.second; else o << "\"" << p.second << "\""; f = false; }
    o << "}}"; first_fail = o.str();
    if (shm) { strncpy(shm, first_fail.c_str(), 60000); }
  }
}
string num(double x) { ostringstream o; o.precision(17); o << x; return o.str(); }
}
extern "C" {
double vc_real_in(const char *n, double lo, double hi) { lock_guard<recursive_mutex> g(mx); double v; string k = n; if (look(k, v)) { double a, b; outer(lo, hi, a, b); if (!(v >= a && v <= b)) { v = v < a ? a : b; used[k] = v; } return v; } v = genw(lo, hi); record(k, v); return v; }
double vc_real(const char *n) { return vc_real_in(n, -1e12, 1e12); }
double vc_any(const char *n) { lock_guard<recursive_mutex> g(mx); double v; string k = n; if (look(k, v)) return v; double u = U(); if (u < 0.08) v = NAN; else if (u < 0.14) v = INFINITY; else if (u < 0.18) v = -INFINITY; else v = gen(-1e12, 1e12); record(k, v); return v; }
int vc_int(const char *n, int lo, int hi) { lock_guard<recursive_mutex> g(mx); double v; string k = n; if (look(k, v)) { int r = v < lo ? lo : v > hi ? hi : (int)v; if (hi - lo > 4096 && r > lo + 4096) r = lo + 1 + rng() % 24; used[k] = r; return r; }
  int r; double u = U(); long span = (long)hi - lo; 
  if (!dict.empty() && u < 0.2 && span > 16) { double d = floor(dict[rng() % dict.size()]) + (int)(rng() % 3) - 1; if (d >= lo && d <= hi && d < lo + 4096) { record(k, d); return (int)d; } }
  if (u < 0.15) r = lo; else if (u < 0.8) r = lo + rng() % (min(span, 6L) + 1); else r = lo + rng() % (min(span, 40L) + 1);
  record(k, r); return r; }
int vc_index(const char *n, int m) { return vc_int(n, 0, m - 1); }
bool vc_bool(const char *n) { lock_guard<recursive_mutex> g(mx); double v; string k = n; if (look(k, v)) return v != 0; bool b = rng() & 1; record(k, b); return b; }
double vc_elem(const char *n, int i, double lo, double hi) { lock_guard<recursive_mutex> g(mx);
  string k = string(n) + "[" + to_string(i) + "]"; double v; if (look(k, v)) return v;
  if (incr.count(n)) {
    double base; string b = string(n) + "[0]";
    if (!look(b, base)) { base = max(lo, -3.0) + 2 * U(); record(b, base); }
    double cur = base;
    for (int j = 1; j <= i; j++) { string q = string(n) + "[" + to_string(j) + "]"; double w; if (look(q, w) && w > cur) { cur = w; continue; } cur += 0.05 + 1.5 * U(); record(q, cur); }
    return cur;
  }
  v = gen(lo, hi); record(k, v); return v; }
double vc_elem2(const char *n, int i, int j, double lo, double hi) { lock_guard<recursive_mutex> g(mx); string k = string(n) + "[" + to_string(i) + "," + to_string(j) + "]"; double v; if (look(k, v)) return v; v = gen(lo, hi); record(k, v); return v; }
int vc_elem_int(const char *n, int i, int lo, int hi) { lock_guard<recursive_mutex> g(mx); return vc_int((string(n) + "[" + to_string(i) + "]").c_str(), lo, hi); }
void vc_increasing(const char *n) { incr[n] = true; }
void vc_simplex(const char *n, int m) { double t = 0; vector<double> w; for (int i = 0; i < m; i++) { double v; string k = string(n) + "[" + to_string(i) + "]"; if (!look(k, v) || !(v >= 0)) v = U() < 0.2 ? 0 : U(); w.push_back(v); t += v; } if (t <= 0) { w[0] = t = 1; } for (int i = 0; i < m; i++) used[string(n) + "[" + to_string(i) + "]"] = w[i] / t; }
static double fnval(const string &n, double x, double y, double lo, double hi, bool wild) {
  lock_guard<recursive_mutex> g(mx);
  if (x != x || y != y) return NAN;
  auto it = fns.find(n);
  if (it == fns.end()) {
    auto par = [&](const char *s, double l, double h) { double v; string k = n + "." + s; if (!look(k, v)) { v = l + (h - l) * U(); record(k, v); } return v; };
    double kd = par("kind", 0, 1);
    double a = max(lo, -4.0), b = min(hi, 4.0);
    if (a > b) { a = lo; b = hi; }
    double p = par("a", a, b), q = par("b", a, b), c = par("c", 0.3, 3);
    int kind = smooth ? 1 : kd < 0.25 ? 0 : kd < 0.8 ? 1 : 2;
    fns[n] = make_pair(kind, vector<double>{p, q, c}); it = fns.find(n);
  }
  int kind = it->second.first; auto &P = it->second.second;
  if (wild && !smooth) { double h = fmod(fabs(sin(x * 12.9898 + y * 78.233 + P[0])) * 43758.5453, 1.0); if (h < 0.15) return NAN; if (h < 0.2) return INFINITY; if (h < 0.24) return -INFINITY; }
  if (kind == 0) return P[0];
  // reaches its limit exactly, so that difference quotients vanish far out
  double t = x < 0 ? 0 : 1 - exp(-x / P[2]);
  double s = y == 0 ? 0 : (1 - exp(-fabs(y))) * (y < 0 ? -0.9 : 0.9);
  if (kind == 1) { double r = P[0] + (P[1] - P[0]) * t; if (s != 0) { r = r + (P[0] - r) * fabs(s); } return r; }
  double h = fmod(fabs(sin(x * 12.9898 + y * 78.233)) * 43758.5453, 1.0); return P[0] + (P[1] - P[0]) * h;
}
double vc_fn(const char *n, double x, double lo, double hi) { if (std::isinf(x) && !smooth) return NAN; return fnval(n, x, 0, lo, hi, false); }
double vc_fn2(const char *n, double x, double y, double lo, double hi) { if ((std::isinf(x) || std::isinf(y)) && !smooth) return NAN; return fnval(n, x, y, lo, hi, false); }
double vc_fn_any(const char *n, double x) { return fnval(n, x, 0, -5, 5, true); }
void vc_assume(bool c) { if (!c) throw Reject(); }
void vc_check(const char *id, bool c) { if (!c) fail(id, "condition is false"); }
static bool eqv(double a, double b, double rt, double at) { if (a != a || b != b) return a != a && b != b; if (std::isinf(a) || std::isinf(b)) return a == b || (fabs(a) > 1e300 && fabs(b) > 1e300 && (a > 0) == (b > 0)); return fabs(a - b) <= at + rt * max(fabs(a), fabs(b)); }
void vc_check_eq(const char *id, double a, double b) { if (!eqv(a, b, rtol, 1e-9)) fail(id, num(a) + " differs from " + num(b)); }
void vc_check_int(const char *id, double a, double b) { if (!eqv(a, b, 2e-2, 1e-3)) fail(id, num(a) + " differs from " + num(b)); }
void vc_cover(const char *) {}
void vc_note(const char *t) { if (!strcmp(t, "smooth")) smooth = true; }
}
// usage: prog HARNESS seed iterations seconds [inputs-file|-] [dict-file]
int main(int c, char **v) {
  gsl_set_error_handler_off();
  omp_set_num_threads(1);
  string h = v[1]; unsigned long seed = strtoul(v[2], 0, 10); long iters = atol(v[3]); double secs = atof(v[4]);
  void *self = dlopen(0, RTLD_NOW); void (*fn)() = (void (*)())dlsym(self, h.c_str());
  if (!fn) { printf("NOHARNESS\n"); return 3; }
  if (c > 5 && strcmp(v[5], "-")) { ifstream f(v[5]); string line; while (getline(f, line)) { size_t p = line.rfind(' '); if (p == string::npos) continue; given[line.substr(0, p)] = strtod(line.substr(p + 1).c_str(), 0); } }
  if (c > 6) { ifstream f(v[6]); double d; while (f >> d) dict.push_back(d); }
  shm = (char *)mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct rlimit rl = {512ul << 20, 512ul << 20}; (void)rl;
  long done = 0, rejected = 0; time_t t0 = time(0);
  for (long k = (c>7?atol(v[7]):0); k < iters; k++) {
    if (difftime(time(0), t0) > secs) break;
    shm[0] = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout);
      struct rlimit sl = {64ul << 20, 64ul << 20}; setrlimit(RLIMIT_STACK, &sl); struct rlimit co = {0, 0}; setrlimit(RLIMIT_CORE, &co);
      rng.seed(seed * 1000003ul + k);
      alarm(30);
      used.clear();
      try { fn(); } catch (Reject &) { if (failures) _exit(10); _exit(11); } catch (std::exception &e) { fail("no-unexpected-exception", string("exception: ") + "std"); } catch (...) { fail("no-unexpected-exception", "exception"); }
      _exit(failures ? 10 : 0);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { done++; continue; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 11) { rejected++; continue; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { printf("FAIL %ld %s\n", k, shm); return 1; }
    printf("FAIL %ld {\"check\": \"%s\", \"why\": \"the run ended by signal %d\", \"inputs\": {\"#sample\": %ld, \"#seed\": %lu}}\n", k, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "termination" : "no-crash", WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st), k, seed);
    return 1;
  }
  printf("DONE %ld %ld\n", done, rejected);
  return 0;
}

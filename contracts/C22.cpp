// C22: clearing every cache reaches each live cache object and no other.
#include <memory>
#include <vector>
#include <functional>
#include "vc.h"
#include "caching.h"
using namespace SLAT;
using namespace SLAT::Caching;
// ---- the registry, with any number of entries
struct Log { std::vector<int> cleared; std::vector<char> at; };
typedef std::shared_ptr<Log> L;
static L logof(int n) { L l = std::make_shared<Log>(); l->cleared.resize(n); l->at.resize(n); return l; }
static void enter(L l, int i) { Private::Add_Cache(&l->at[i], [l, i]() { l->cleared[i] = l->cleared[i] + 1; }); }
static void many(L l, int n) { Private::Init_Caching(); for (int i = 0; i < n; i++) enter(l, i); }
static void leave(L l, int n) { for (int i = 0; i < n; i++) Private::Remove_Cache(&l->at[i]); }
#define N vc_int("n", 0, 1 << 30)
VC_HARNESS(C22, registry_all) {
  int n = N; L l = logof(n); many(l, n);
  vc_cover("start");
  Clear_Caches();
  if (n > 0) vc_check("cleared", l->cleared[vc_index("i", n)] == 1);
#ifdef VC_NATIVE
  leave(l, n);
#endif
}
VC_HARNESS(C22, registry_removed) {
  int n = N; L l = logof(n); many(l, n);
  if (n == 0) return;
  int r = vc_index("r", n), i = vc_index("i", n);
  Private::Remove_Cache(&l->at[r]);
  vc_cover("removed");
  Clear_Caches();
  vc_check("cleared", l->cleared[i] == (i == r ? 0 : 1));
#ifdef VC_NATIVE
  leave(l, n);
#endif
}
VC_HARNESS(C22, registry_twice) {
  int n = N; L l = logof(n); many(l, n);
  if (n == 0) return;
  int r = vc_index("r", n), i = vc_index("i", n);
  Private::Remove_Cache(&l->at[r]); Private::Remove_Cache(&l->at[r]);
  vc_cover("removed");
  Clear_Caches();
  vc_check("cleared", l->cleared[i] == (i == r ? 0 : 1));
#ifdef VC_NATIVE
  leave(l, n);
#endif
}
VC_HARNESS(C22, registry_newcomer) {
  int n = N; L l = logof(n + 1); many(l, n);
  if (n == 0) return;
  int r = vc_index("r", n), i = vc_index("i", n);
  Private::Remove_Cache(&l->at[r]);
  Clear_Caches();
  enter(l, n);
  vc_cover("joined");
  Clear_Caches();
  vc_check("cleared", l->cleared[i] == (i == r ? 0 : 2));
  vc_check("newcomer", l->cleared[n] == 1);
  Private::Remove_Cache(&l->at[n]);
  Clear_Caches();
  vc_check("newcomer-left", l->cleared[n] == 1);
#ifdef VC_NATIVE
  leave(l, n);
#endif
}
VC_HARNESS(C22, registry_stranger) {
  int n = N; L l = logof(n), o = logof(1); many(l, n);
  Private::Remove_Cache(&o->at[0]);
  vc_cover("start");
  Clear_Caches(); Clear_Caches();
  if (n > 0) vc_check("cleared", l->cleared[vc_index("i", n)] == 2);
#ifdef VC_NATIVE
  leave(l, n);
#endif
}
// ---- cache objects: each enters the registry under its own address with a function that empties it, and leaves
// it when destroyed; that the registry serves any number of entries is what the harnesses above show
struct World { double v, w; int f, g; World() : f(0), g(0) { v = vc_any("v"); w = vc_any("w"); } };
typedef CachedFunction<double, double> F;
typedef CachedValue<double> V;
struct Live {
  World s;
  Live() { Private::Init_Caching(); }
  F *fn() { World *p = &s; return new F([p](double x) { p->f++; return p->v; }, "f"); }
  V *val() { World *p = &s; return new V([p]() { p->g++; return p->w; }, "v"); }
  void turn() { s.v = vc_any("v2"); s.w = vc_any("w2"); }
};
VC_HARNESS(C22, function) {
  Live a; F *f = a.fn(); double x = vc_any("x"), y = vc_any("y");
  (*f)(x); (*f)(y);
  int n = vc_int("n", 0, 9999); for (int i = 0; i < n; i++) (*f)(x);
  a.turn(); vc_cover("start");
  Clear_Caches();
  int before = a.s.f;
  vc_check_eq("recomputed", (*f)(y), a.s.v);
  vc_check("asked", a.s.f == before + 1);
  vc_check_eq("recomputed-other", (*f)(x), a.s.v);
  delete f;
  Clear_Caches();
  vc_check("done", true);
}
// one argument, asked for any number of times
VC_HARNESS(C22, repeated) {
  Live a; F *f = a.fn(); double x = vc_any("x");
  (*f)(x);
  int n = vc_int("n", 0, 9999); for (int i = 0; i < n; i++) (*f)(x);
  a.turn(); vc_cover("start");
  Clear_Caches();
  vc_check_eq("recomputed", (*f)(x), a.s.v);
  delete f;
}
VC_HARNESS(C22, value) {
  Live a; V *f = a.val();
  (*f)();
  int n = vc_int("n", 0, 9999); for (int i = 0; i < n; i++) (*f)();
  a.turn(); vc_cover("start");
  Clear_Caches();
  int before = a.s.g;
  vc_check_eq("recomputed", (*f)(), a.s.w);
  vc_check("asked", a.s.g == before + 1);
  a.turn();
  Clear_Caches();
  vc_check_eq("recomputed-again", (*f)(), a.s.w);
  delete f;
  Clear_Caches();
  vc_check("done", true);
}
VC_HARNESS(C22, unused) {
  Live a; V *f = a.val(); F *g = a.fn(); double x = vc_any("x");
  vc_cover("start");
  Clear_Caches();
  a.turn();
  vc_check_eq("value", (*f)(), a.s.w); vc_check_eq("function", (*g)(x), a.s.v);
  delete g; delete f;
}
// any of three is destroyed: the other two are reached, it is not touched
static void three(int gone) {
  Live a; F *f = a.fn(); V *v = a.val(); F *g = a.fn(); double x = vc_any("x");
  (*f)(x); (*v)(); (*g)(x);
  if (gone == 0) delete f; else if (gone == 1) delete v; else delete g;
  a.turn(); vc_cover("start");
  Clear_Caches();
  if (gone != 0) vc_check_eq("first", (*f)(x), a.s.v);
  if (gone != 1) vc_check_eq("second", (*v)(), a.s.w);
  if (gone != 2) vc_check_eq("third", (*g)(x), a.s.v);
  V *late = a.val(); (*late)();
  a.turn();
  Clear_Caches();
  vc_check_eq("newcomer", (*late)(), a.s.w);
  if (gone != 0) { vc_check_eq("first-again", (*f)(x), a.s.v); delete f; }
  if (gone != 1) { vc_check_eq("second-again", (*v)(), a.s.w); delete v; }
  if (gone != 2) { vc_check_eq("third-again", (*g)(x), a.s.v); delete g; }
  delete late;
  Clear_Caches();
  vc_check("done", true);
}
VC_HARNESS(C22, first_destroyed) { three(0); }
VC_HARNESS(C22, second_destroyed) { three(1); }
VC_HARNESS(C22, third_destroyed) { three(2); }

// C23: change and replacement notices reach exactly the registered listeners.
#include <memory>
#include <vector>
#include <functional>
#include "vc.h"
#include "replaceable.h"
using namespace SLAT;
struct Thing : public Replaceable<Thing> {};
typedef std::shared_ptr<Thing> P;
struct Log { std::vector<int> changed, replaced; std::vector<Thing *> with; };
typedef std::shared_ptr<Log> L;
static int listen(P t, L log, int i) {
  return t->add_callbacks([log, i]() { log->changed[i] = log->changed[i] + 1; },
                          [log, i](P n) { log->replaced[i] = log->replaced[i] + 1; log->with[i] = n.get(); });
}
static L logof(int n) { L l = std::make_shared<Log>(); l->changed.resize(n); l->replaced.resize(n); l->with.resize(n); return l; }
static std::vector<int> many(P t, L log, int n) { std::vector<int> ids; for (int i = 0; i < n; i++) ids.push_back(listen(t, log, i)); return ids; }
#define N vc_int("n", 0, 1 << 30)
VC_HARNESS(C23, notify) {
  int n = N; P t = std::make_shared<Thing>(); L log = logof(n);
  many(t, log, n);
  vc_cover("start");
  t->notify_change();
  if (n == 0) return;
  int i = vc_index("i", n);
  vc_check("changed-once", log->changed[i] == 1);
  vc_check("not-replaced", log->replaced[i] == 0);
}
VC_HARNESS(C23, distinct) {
  int n = N; P t = std::make_shared<Thing>(); L log = logof(n);
  std::vector<int> ids = many(t, log, n);
  if (n < 2) return;
  int i = vc_index("i", n), j = vc_index("j", n);
  vc_assume(i != j);
  vc_cover("pair");
  vc_check("distinct", ids[i] != ids[j]);
}
// one listener leaves: it alone stays silent
VC_HARNESS(C23, remove) {
  int n = N; P t = std::make_shared<Thing>(); L log = logof(n);
  std::vector<int> ids = many(t, log, n);
  if (n == 0) return;
  int r = vc_index("r", n), i = vc_index("i", n);
  t->remove_callbacks(ids[r]);
  vc_cover("removed");
  t->notify_change();
  if (i == r) { vc_cover("gone"); vc_check("silent", log->changed[i] == 0); }
  else { vc_cover("other"); vc_check("others-once", log->changed[i] == 1); }
  vc_check("not-replaced", log->replaced[i] == 0);
}
// a handle that is no longer registered removes nobody
VC_HARNESS(C23, remove_twice) {
  int n = N; P t = std::make_shared<Thing>(); L log = logof(n);
  std::vector<int> ids = many(t, log, n);
  if (n == 0) return;
  int r = vc_index("r", n), i = vc_index("i", n);
  t->remove_callbacks(ids[r]); t->remove_callbacks(ids[r]);
  t->notify_change();
  vc_cover("removed");
  vc_check("others-once", log->changed[i] == (i == r ? 0 : 1));
}
// a listener joining later gets a handle of its own
VC_HARNESS(C23, rejoin) {
  int n = N; P t = std::make_shared<Thing>(); L log = logof(n + 1);
  std::vector<int> ids = many(t, log, n);
  if (n == 0) return;
  int r = vc_index("r", n), i = vc_index("i", n);
  t->remove_callbacks(ids[r]);
  int id = listen(t, log, n);
  vc_cover("joined");
  if (i != r) vc_check("distinct", ids[i] != id);
  t->notify_change();
  vc_check("newcomer-once", log->changed[n] == 1);
  vc_check("others-once", log->changed[i] == (i == r ? 0 : 1));
  t->remove_callbacks(id);
  t->notify_change();
  vc_check("newcomer-gone", log->changed[n] == 1);
  vc_check("others-twice", log->changed[i] == (i == r ? 0 : 2));
}
// replacing: n listeners move to an object that has m of its own
struct Move {
  int n, m; P a, b; L la, lb; std::vector<int> ia, ib;
  Move(bool first) {  // which listeners registered first
    n = N; m = vc_int("m", 0, 1 << 30); a = std::make_shared<Thing>(); b = std::make_shared<Thing>(); la = logof(n); lb = logof(m);
    if (first) ia = many(a, la, n);
    ib = many(b, lb, m);
    if (!first) ia = many(a, la, n);
    a->replace(b);
  }
};
VC_HARNESS(C23, replace) {
  Move s(vc_bool("first"));
  vc_cover("replaced");
  if (s.n > 0) {
    int i = vc_index("i", s.n);
    vc_check("told-once", s.la->replaced[i] == 1);
    vc_check("told-which", s.la->with[i] == s.b.get());
    vc_check("no-change-notice", s.la->changed[i] == 0);
  }
  if (s.m > 0) {
    int j = vc_index("j", s.m);
    vc_check("own-not-told", s.lb->replaced[j] == 0);
    vc_check("own-no-change-notice", s.lb->changed[j] == 0);
  }
  s.a->notify_change();
  if (s.n > 0) vc_check("left-old", s.la->changed[vc_index("i", s.n)] == 0);
  if (s.m > 0) vc_check("never-on-old", s.lb->changed[vc_index("j", s.m)] == 0);
  s.b->notify_change();
  if (s.n > 0) vc_check("on-new", s.la->changed[vc_index("i", s.n)] == 1);
  if (s.m > 0) vc_check("own-still-on-new", s.lb->changed[vc_index("j", s.m)] == 1);
}
VC_HARNESS(C23, replace_remove) {
  Move s(vc_bool("first"));
  if (s.n == 0) return;
  int i = vc_index("i", s.n), r = vc_index("r", s.n);
  s.b->remove_callbacks(s.ia[r]);
  s.b->notify_change();
  vc_cover("removed");
  vc_check("removed-one-moved", s.la->changed[i] == (i == r ? 0 : 1));
  if (s.m > 0) vc_check("own-untouched", s.lb->changed[vc_index("j", s.m)] == 1);
}
VC_HARNESS(C23, replace_remove_own) {
  Move s(vc_bool("first"));
  if (s.m == 0) return;
  int j = vc_index("j", s.m), r = vc_index("r", s.m);
  s.b->remove_callbacks(s.ib[r]);
  s.b->notify_change();
  vc_cover("removed");
  vc_check("removed-one-own", s.lb->changed[j] == (j == r ? 0 : 1));
  if (s.n > 0) vc_check("moved-untouched", s.la->changed[vc_index("i", s.n)] == 1);
}
VC_HARNESS(C23, replace_add) {
  Move s(vc_bool("first"));
  L l = logof(1);
  int id = listen(s.b, l, 0);
  vc_cover("added");
  if (s.n > 0) vc_check("distinct-from-moved", id != s.ia[vc_index("i", s.n)]);
  if (s.m > 0) vc_check("distinct-from-own", id != s.ib[vc_index("j", s.m)]);
  s.b->notify_change();
  vc_check("new-once", l->changed[0] == 1);
  if (s.n > 0) vc_check("moved-once", s.la->changed[vc_index("i", s.n)] == 1);
  if (s.m > 0) vc_check("own-once", s.lb->changed[vc_index("j", s.m)] == 1);
}
VC_HARNESS(C23, replace_twice) {
  Move s(vc_bool("first"));
  P c = std::make_shared<Thing>();
  s.b->replace(c);
  vc_cover("again");
  if (s.n > 0) { int i = vc_index("i", s.n); vc_check("moved-told-twice", s.la->replaced[i] == 2); vc_check("moved-told-which", s.la->with[i] == c.get()); }
  if (s.m > 0) { int j = vc_index("j", s.m); vc_check("own-told-once", s.lb->replaced[j] == 1); vc_check("own-told-which", s.lb->with[j] == c.get()); }
  s.a->notify_change(); s.b->notify_change(); c->notify_change();
  if (s.n > 0) vc_check("moved-once", s.la->changed[vc_index("i", s.n)] == 1);
  if (s.m > 0) vc_check("own-once", s.lb->changed[vc_index("j", s.m)] == 1);
}
VC_HARNESS(C23, replace_self) {
  int n = N; P t = std::make_shared<Thing>(); L log = logof(n);
  many(t, log, n);
  t->replace(t);
  t->notify_change();
  vc_cover("self");
  if (n == 0) return;
  int i = vc_index("i", n);
  vc_check("told-once", log->replaced[i] == 1);
  vc_check("still-registered", log->changed[i] == 1);
}

// U01: a deed follows its object, through moves, loans and returns.
//
// Every operation starts from an arbitrary consistent state: an object that is
// not owned, or owned by the top of a chain of deeds in which each deed has lent
// the object to the next; a chain may also have lost its object.  An operation
// touches the top of a chain, the deed below it and the object; what is below the
// third deed of a longer chain is memory that must not be accessed, so that the
// result holds for chains of any length.
#include <new>
#include <type_traits>
#include "vp.h"
#include "walnut/deed.h"
using namespace walnut;

struct Thing : DeedTarget {
  int v = 0;
};
typedef Deed<Thing> D;

template <class X> static X* raw() { return (X*)vp_alloc(sizeof(X)); }

struct Chain {
  Thing* o;         // the object, or null
  D* d[5];          // d[0] lent to d[1] lent to ...
  int n;            // number of deeds; d[n] is spare
  D* below;         // the deed that lent to d[0], for longer chains; not accessible
};
static void link(Chain& c) {
  for (int i = 0; i < c.n; i++) {
    c.d[i]->lender_ = i ? c.d[i - 1] : c.below;
    if (i + 1 < c.n) c.d[i]->is_lender_ = c.d[i];
    else c.d[i]->object_ = c.o;
  }
  if (c.o) c.o->owner_ = c.n ? c.d[c.n - 1] : nullptr;
}
// any consistent state of one object and the deeds to it
static void make(Chain& c, const char* depth, const char* has, int min_depth, bool may_lose) {
  c.n = min_depth + vp_choice(depth, 5 - min_depth);
  c.below = nullptr;
  if (c.n == 4) {
    c.n = 3;
    c.below = (D*)vp_alloc(0);
  }
  bool lost = may_lose && c.n > 0 && vp_choice(has, 2) == 1;
  c.o = lost ? nullptr : raw<Thing>();
  if (c.o) c.o->v = 7;
  for (int i = 0; i < 5; i++) {
    c.d[i] = raw<D>();
    c.d[i]->object_ = nullptr;
    c.d[i]->lender_ = nullptr;
  }
  link(c);
}
// the state is exactly the one that c describes
static void check(const Chain& c) {
  for (int i = 0; i < c.n; i++) {
    ENSUREL(c.d[i]->lender_ == (i ? c.d[i - 1] : c.below), "each deed of a loan knows its lender");
    ENSUREL(c.d[i]->is_lender() == (i + 1 < c.n), "exactly the deeds below the top are lent out");
  }
  if (c.n) {
    ENSUREL(c.d[c.n - 1]->get() == c.o, "the deed points to the object");
    ENSUREL((bool)*c.d[c.n - 1] == (c.o != nullptr), "a deed converts to whether it has an object");
    ENSUREL((*c.d[c.n - 1] == nullptr) == (c.o == nullptr), "a deed compares with null");
    ENSUREL((*c.d[c.n - 1] != nullptr) == (c.o != nullptr), "a deed compares with null");
    ENSUREL(c.d[c.n - 1]->empty() == (c.o == nullptr), "a deed is empty without object");
  }
  if (c.o) {
    ENSUREL(c.o->owner_ == (c.n ? c.d[c.n - 1] : nullptr), "the object knows the deed at the top");
    if (c.n) ENSUREL(&**c.d[c.n - 1] == c.o, "dereferencing gives the object");
    if (c.n) ENSUREL((*c.d[c.n - 1]).operator->() == c.o, "dereferencing gives the object");
  }
}
static void null_deed(const GenericDeed& d) {
  ENSUREL(d.get() == nullptr, "the deed is null");
  ENSUREL(d.lender_ == nullptr, "the deed has no lender");
}
struct World {
  Chain a, by;      // the chain acted upon, and one that must not be affected
  World(int min_depth, bool may_lose) {
    make(a, "depth", "lost", min_depth, may_lose);
    by.n = 2;
    by.below = nullptr;
    by.o = raw<Thing>();
    for (int i = 0; i < 5; i++) { by.d[i] = raw<D>(); by.d[i]->object_ = nullptr; by.d[i]->lender_ = nullptr; }
    link(by);
  }
  void done() { check(a); check(by); vp_cover("end"); }
};

VP_HARNESS(initial) {
  D d;
  null_deed(d);
  ENSURE(!d.is_lender());
  GenericDeed g((DeedTarget*)nullptr);
  null_deed(g);
  D e((Thing*)nullptr);
  null_deed(e);
  Thing t;
  ENSURE(t.owner_ == nullptr);
  vp_cover("end");
}
// a deed taken on an object borrows it from the deed that owns it, if any
VP_HARNESS(take) {
  World w(0, false);
  D* d = new (w.a.d[w.a.n]) D(w.a.o);
  w.a.n++;
  w.done();
}
VP_HARNESS(lend) {
  World w(1, true);
  D* d = new (w.a.d[w.a.n]) D(w.a.d[w.a.n - 1]->Lend());
  w.a.n++;
  w.done();
}
VP_HARNESS(lend_generic) {
  World w(1, true);
  {
    GenericDeed* top = w.a.d[w.a.n - 1];
    GenericDeed g = top->Lend();
    ENSURE(g.get() == (DeedTarget*)w.a.o);
    ENSURE(top->is_lender());
    if (w.a.o) {
      ENSUREL(w.a.o->owner_ == &g, "the object knows the deed it was lent to");
      // the borrower follows the object
      Thing* t = new (raw<Thing>()) Thing(static_cast<Thing&&>(*w.a.o));
      ENSUREL(g.get() == (DeedTarget*)t, "the borrowing deed follows the object");
      w.a.o = t;
    }
  }
  w.done();
}
VP_HARNESS(destroy_deed) {
  World w(1, true);
  w.a.d[w.a.n - 1]->~D();
  w.a.n--;
  w.done();
}
VP_HARNESS(give_back) {
  World w(1, true);
  D* t = w.a.d[w.a.n - 1];
  t->Return();
  null_deed(*t);
  ENSURE(!t->is_lender());
  w.a.n--;
  // the returned deed no longer has any effect
  t->~D();
  w.done();
}
VP_HARNESS(move_deed) {
  World w(1, true);
  D* t = w.a.d[w.a.n - 1];
  D* u = new (raw<D>()) D(static_cast<D&&>(*t));
  null_deed(*t);
  w.a.d[w.a.n - 1] = u;
  t->~D();
  w.done();
}
static D* top_or_null(Chain& c) { return c.n ? c.d[c.n - 1] : c.d[0]; }
static void exchange(Chain& a, Chain& b) {
  // the deeds at the top change places
  D* x = top_or_null(a);
  D* y = top_or_null(b);
  if (a.n) a.d[a.n - 1] = y; else a.d[0] = y;
  if (b.n) b.d[b.n - 1] = x; else b.d[0] = x;
}
VP_HARNESS(swap_deeds) {
  World w(0, true);
  Chain b;
  make(b, "depth2", "lost2", 0, true);
  top_or_null(w.a)->swap(*top_or_null(b));
  exchange(w.a, b);
  if (!w.a.n) null_deed(*w.a.d[0]);
  if (!b.n) null_deed(*b.d[0]);
  check(b);
  w.done();
}
VP_HARNESS(assign_deed) {
  World w(0, true);
  Chain b;
  make(b, "depth2", "lost2", 0, true);
  D* x = top_or_null(w.a);
  D& r = (*x = static_cast<D&&>(*top_or_null(b)));
  ENSURE(&r == x);
  exchange(w.a, b);
  if (!w.a.n) null_deed(*w.a.d[0]);
  if (!b.n) null_deed(*b.d[0]);
  check(b);
  w.done();
}
VP_HARNESS(swap_self) {
  World w(1, true);
  D* t = w.a.d[w.a.n - 1];
  t->swap(*t);
  check(w.a);
  *t = static_cast<D&&>(*t);
  w.done();
}
// ---- the object
VP_HARNESS(move_object) {
  World w(0, false);
  Thing* t = new (raw<Thing>()) Thing(static_cast<Thing&&>(*w.a.o));
  ENSUREL(w.a.o->owner_ == nullptr, "the object moved from is not owned");
  ENSURE(t->v == 7);
  // destroying what was moved from does not matter
  w.a.o->~Thing();
  w.a.o = t;
  w.done();
}
VP_HARNESS(assign_object) {
  World w(0, false);
  Chain b;
  make(b, "depth2", "lost2", 0, false);
  Thing& r = (*w.a.o = static_cast<Thing&&>(*b.o));
  ENSURE(&r == w.a.o);
  // ownership travels with the contents
  Thing* t = w.a.o;
  w.a.o = b.o;
  b.o = t;
  check(b);
  w.done();
}
VP_HARNESS(assign_object_self) {
  World w(0, false);
  *w.a.o = static_cast<Thing&&>(*w.a.o);
  w.done();
}
VP_HARNESS(copy_object) {
  World w(0, false);
  Thing* t = new (raw<Thing>()) Thing(*w.a.o);
  ENSUREL(t->owner_ == nullptr, "the copy is not owned");
  check(w.a);
  Chain b;
  make(b, "depth2", "lost2", 0, false);
  *b.o = *w.a.o;
  check(b);
  w.done();
}
VP_HARNESS(destroy_object) {
  World w(0, false);
  w.a.o->~Thing();
  w.a.o = nullptr;
  w.done();
}

// B01: boolean operations combine what is known of the operands exactly.
//
// A verdict is a pair: whether the points are inside with the polygons seen so
// far, and whether polygons not yet visited could still change that.  For every
// list of ids (of any length, with repetitions and ids that have no polygons) the
// verdict must be the set operation applied to the operands, and it is open
// exactly if the undecided operands could make it come out either way.
#include "vp.h"
#include "walnut/convex_polygon.h"
#include "walnut/aabb_convex_polygon.h"
#include "walnut/bsp_tree.h"
#include "walnut/bsp_visitor.h"
#include "walnut/boolean_operation_filter.h"
using namespace walnut;
typedef std::vector<BSPContentId> Ids;
typedef std::vector<BSPContentInfo> Info;
typedef std::pair<bool, bool> Verdict;
extern "C" {
void vpf_make_ids(void* ids);
void vpf_make_info(void* info);
// is some listed id definitely inside / definitely outside / undecided / inside
// now / outside now?  (kind 0: inside means winding number > 0; kind 1: so for
// the first id, and >= 0 for those that are subtracted)
bool vpf_any(int kind, int which);
uint64_t vpf_ids();
}
enum { TRUE_, FALSE_, OPEN, NOW, NOTNOW };
template <class V> static V& raw() { return *(V*)vp_alloc(sizeof(V)); }

VP_HARNESS(union_ids) {
  Ids& ids = raw<Ids>();
  Info& info = raw<Info>();
  vpf_make_ids(&ids);
  vpf_make_info(&info);
  UnionIdsFilter f(static_cast<Ids&&>(ids));
  Verdict v = f(info);
  ENSURE(vp_iff(v.first, vpf_any(0, NOW)));
  ENSURE(vp_iff(v.second, vp_and(vpf_any(0, OPEN), vp_not(vpf_any(0, TRUE_)))));
  vp_cover("end");
}
VP_HARNESS(intersect_ids) {
  Ids& ids = raw<Ids>();
  Info& info = raw<Info>();
  vpf_make_ids(&ids);
  vpf_make_info(&info);
  IntersectIdsFilter f;
  f.SetIds(static_cast<Ids&&>(ids));
  Verdict v = f(info);
  ENSURE(vp_iff(v.first, vp_not(vpf_any(0, NOTNOW))));
  ENSURE(vp_iff(v.second, vp_and(vpf_any(0, OPEN), vp_not(vpf_any(0, FALSE_)))));
  vp_cover("end");
}
VP_HARNESS(subtract_ids) {
  Ids& ids = raw<Ids>();
  Info& info = raw<Info>();
  vpf_make_ids(&ids);
  vpf_make_info(&info);
  SubtractIdsFilter f(static_cast<Ids&&>(ids));
  Verdict v = f(info);
  ENSURE(vp_iff(v.first, vp_and(vpf_ids() > 0, vp_not(vpf_any(1, NOTNOW)))));
  ENSURE(vp_iff(v.second, vp_and(vp_and(vpf_ids() > 0, vpf_any(1, OPEN)), vp_not(vpf_any(1, FALSE_)))));
  vp_cover("end");
}
// ---- one polyhedron
template <class F> static void single(int mode) {
  Info& info = raw<Info>();
  vpf_make_info(&info);
  uint64_t id = vp_u64("id");
  F f(id);
  Verdict v = f(info);
  bool known = id < info.size();
  bool open = false;
  int64_t w = 0;
  if (known) {
    w = info[id].pwn;
    open = vp_or(info[id].has_interior_polygons != 0, info[id].has_border_polygons != 0);
  }
  ENSUREL(vp_iff(v.first, mode == 0 ? w > 0 : mode == 1 ? w >= 0 : (w & 1) != 0), "inside according to the winding number");
  ENSUREL(vp_iff(v.second, open), "open while there are polygons left");
  vp_cover("end");
}
VP_HARNESS(one_polyhedron) { single<PolygonFilter>(0); }
VP_HARNESS(one_inverted) { single<InvertedPolygonFilter>(1); }
VP_HARNESS(one_odd) { single<OddPolygonFilter>(2); }
// ---- combinations of two verdicts
struct Given {
  Verdict v;
  Verdict operator()(const Info&) { return v; }
};
static Given given(const char* a, const char* b) {
  Given g;
  g.v.first = vp_bool(a);
  g.v.second = vp_bool(b);
  return g;
}
// the verdict r combines x and y by op: it is op now, and it is open iff what is
// undecided can make it come out either way
template <class Op> static void combined(Verdict r, const Given& x, const Given& y, Op op) {
  bool can_true = false, can_false = false;
  for (int i = 0; i < 4; i++) {
    bool p = i & 1, q = i & 2;
    bool allowed = vp_and(vp_or(x.v.second, vp_iff(x.v.first, p)), vp_or(y.v.second, vp_iff(y.v.first, q)));
    if (op(p, q)) can_true = vp_or(can_true, allowed);
    else can_false = vp_or(can_false, allowed);
    ENSUREL(vp_implies(vp_and(vp_iff(x.v.first, p), vp_iff(y.v.first, q)), vp_iff(r.first, op(p, q))), "the operation applied to what is known now");
  }
  ENSUREL(vp_iff(r.second, vp_and(can_true, can_false)), "open iff the undecided operands decide");
  vp_cover("end");
}
static bool op_and(bool p, bool q) { return p && q; }
static bool op_or(bool p, bool q) { return p || q; }
static bool op_xor(bool p, bool q) { return p != q; }
VP_HARNESS(combine_intersection) {
  Given x = given("x", "x_open"), y = given("y", "y_open");
  Info& info = raw<Info>();
  vpf_make_info(&info);
  combined(MakeIntersectionFilter(x, y)(info), x, y, op_and);
}
VP_HARNESS(combine_union) {
  Given x = given("x", "x_open"), y = given("y", "y_open");
  Info& info = raw<Info>();
  vpf_make_info(&info);
  combined(MakeUnionFilter(x, y)(info), x, y, op_or);
}
VP_HARNESS(combine_subtraction) {
  // the second operand is the complement of what is subtracted
  Given x = given("x", "x_open"), y = given("y", "y_open");
  Info& info = raw<Info>();
  vpf_make_info(&info);
  combined(MakeSubtractionFilter(x, y)(info), x, y, op_and);
}
VP_HARNESS(combine_xor) {
  Given x = given("x", "x_open"), y = given("y", "y_open");
  Info& info = raw<Info>();
  vpf_make_info(&info);
  combined(MakeXORFilter(x, y)(info), x, y, op_xor);
}

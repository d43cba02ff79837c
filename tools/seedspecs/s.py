H = '#include <cstdio>\n#include <cstdlib>\n#include <utility>\n#include <vector>\n'
def demo(inc, body, pre=''):
    return H + ''.join('#include "walnut/%s.h"\n' % i for i in inc) + 'using namespace walnut;\n#define CHECK(c) do { if (!(c)) { fprintf(stderr, "wrong: %s\\n", #c); return 1; } } while (0)\n' + pre + 'int main() {\n' + body + '\n  return 0;\n}\n'
CP = 'include/walnut/convex_polygon.h'
POLY = '''
typedef ConvexPolygon<> Poly;
typedef std::vector<std::pair<long, long>> Pts;
// in the plane z = 5; with a denominator for every vertex
static Poly make(const Pts& v, const std::vector<long>& w, long turn = 1) {
  std::vector<HomoPoint3> p;
  size_t n = v.size();
  for (size_t i = 0; i < n; ++i) p.emplace_back(BigInt(v[i].first * w[i]), BigInt(v[i].second * w[i]), BigInt(5 * w[i]), BigInt(w[i]));
  Poly::EdgeVector e;
  for (size_t i = 0; i < n; ++i) e.emplace_back(p[i], PluckerLine(Point3((int)v[i].first, (int)v[i].second, 5), Point3((int)v[(i + 1) % n].first, (int)v[(i + 1) % n].second, 5)));
  return Poly(HalfSpace3(Vector3(0, 0, (int)turn), BigInt(5 * turn)), 2, std::move(e));
}
// whether the ranges of the split are as the vertices are
static bool right(const Poly& p, const HalfSpace3& h, const ConvexPolygonSplitRanges& r) {
  size_t n = p.vertex_count();
  for (size_t i = 0; i < n; ++i) {
    int s = h.Compare(p.vertex(i));
    bool neg = false, pos = false;
    for (size_t k = r.neg_range.first; k < r.neg_range.second; ++k) neg |= k % n == i;
    for (size_t k = r.pos_range.first; k < r.pos_range.second; ++k) pos |= k % n == i;
    if (neg != (s < 0) || pos != (s > 0)) return false;
  }
  return true;
}
static Pts rotate(const Pts& v, size_t k) {
  Pts r;
  for (size_t i = 0; i < v.size(); ++i) r.push_back(v[(i + k) % v.size()]);
  return r;
}
'''
TRY = '''
  for (size_t k = 0; k < v.size(); ++k) {
    Poly p = make(rotate(v, k), w);
    for (long nx = -2; nx <= 2; ++nx) for (long ny = -2; ny <= 2; ++ny) for (long nz = -2; nz <= 2; ++nz) for (long d = -30; d <= 30; ++d) {
      if (!nx && !ny) continue;
      HalfSpace3 h(Vector3((int)nx, (int)ny, (int)nz), BigInt(d));
      CHECK(right(p, h, p.GetSplitInfo(h).ranges));
    }
  }'''
SEEDS = [
 dict(id='s01-coincident-run', property='S01',
  edits=[(CP, "      do {\n        ++index;\n      } while (half_space2.IsCoincident(\n            vertex(index % vertex_count()).DropDimension(drop_dimension)));\n    }\n    indices.pos_range.first = index;",
              "      // At most one edge is in the line: the next vertex may be on it too.\n      ++index;\n      if (half_space2.IsCoincident(\n            vertex(index % vertex_count()).DropDimension(drop_dimension))) {\n        ++index;\n      }\n    }\n    indices.pos_range.first = index;")],
  demo=demo(['convex_polygon'], '''
  Pts v{{0,0},{2,0},{4,0},{6,0},{8,0},{10,2},{11,5},{10,8},{7,9},{3,9},{0,7},{-1,4}};
  std::vector<long> w(12, 1);''' + TRY, POLY),
  needs='a polygon of ten or more vertices with three or more of them on one straight side, and a split plane through that side', breaks='the third vertex on the plane is put in the positive range'),
 dict(id='s01-new-point-wrap', property='S01',
  edits=[(CP, "  if (result.ranges.pos_range.second % vertex_count() ==\n      result.ranges.neg_range.first % vertex_count()) {", "  if (result.ranges.pos_range.second % vertex_count() ==\n      result.ranges.neg_range.first) {")],
  demo=demo(['convex_polygon'], '''
  Pts v{{0,0},{3,-1},{6,-1},{9,1},{11,4},{11,7},{9,10},{6,11},{3,11},{0,9},{-2,6},{-2,3}};
  std::vector<long> w(12, 1);''' + TRY.replace("CHECK(right", "auto s = p.GetSplitInfo(h);\n      bool two = s.ShouldEmitNegativeChild() && s.ShouldEmitPositiveChild();\n      size_t n = p.vertex_count();\n      CHECK(s.has_new_shared_point1 == (two && s.pos_range().second % n == s.neg_range().first % n));\n      CHECK(right"), POLY),
  needs='a polygon of ten or more vertices whose last vertex is the last in front of the plane, with the closing edge crossing the plane', breaks='the point where the closing edge crosses the plane is not computed'),
 dict(id='s01-children-moved-edge', property='S01',
  edits=[(CP, "    neg_child.edges_.emplace_back(\n        parent.edge(split.neg_range().second % parent.vertex_count()),\n        split.new_line);\n    pos_child.edges_.push_back(MemberForward<ParentRef>(parent.edges_[\n          split.neg_range().second % parent.vertex_count()]));\n  } else {",
              "    pos_child.edges_.push_back(MemberForward<ParentRef>(parent.edges_[\n          split.neg_range().second % parent.vertex_count()]));\n    neg_child.edges_.emplace_back(\n        parent.edge(split.neg_range().second % parent.vertex_count()),\n        split.new_line);\n  } else {")],
  demo=demo(['convex_polygon', 'mutable_convex_polygon'], '''
  long big = 1;
  BigInt b = BigInt(big) << 100;
  Poly::EdgeVector e;
  HomoPoint3 q[4] = {HomoPoint3(BigInt(0), BigInt(0), BigInt(0), BigInt(1)), HomoPoint3(b, BigInt(0), BigInt(0), BigInt(1)), HomoPoint3(b, b, BigInt(0), BigInt(1)), HomoPoint3(BigInt(0), b, BigInt(0), BigInt(1))};
  for (int i = 0; i < 4; ++i) e.emplace_back(q[i], PluckerLine(q[i], q[(i + 1) % 4]));
  Poly p(HalfSpace3(Vector3(0, 0, 1), BigInt(0)), 2, std::move(e));
  Poly keep(p);
  MutableConvexPolygon<> mp(p);
  // through the vertices 1 and 3
  HalfSpace3 h(Vector3(1, 1, 0), b);
  auto s = p.GetSplitInfo(h), t = s;
  auto a = keep.CreateSplitChildren(s);
  auto m = MutableConvexPolygon<>::CreateSplitChildren(std::move(mp).GetRValueKey(), std::move(t));
  CHECK(a.first.vertex_count() == 3 && m.first.vertex_count() == 3);
  for (size_t i = 0; i < 3; ++i) {
    CHECK(h.Compare(m.first.vertex(i)) <= 0);
    CHECK(m.first.vertex(i) == a.first.vertex(i));
    CHECK(m.second.vertex(i) == a.second.vertex(i));
  }''', POLY),
  needs='splitting, in the consuming form, a polygon exactly through a vertex whose coordinates need more than one word', breaks='the shared vertex of the negative child is taken from an edge that was already moved away'),
 dict(id='s01-last-neg-start', property='S01',
  edits=[(CP, "  assert(begin_type <= 0);\n\n  while (begin + 1 < end) {\n    size_t mid = (begin + end) / 2;\n    int mid_type = half_space.Compare(\n        vertex(mid % vertex_count()).DropDimension(drop_dimension));\n    if (mid_type <= 0) {\n      begin = mid;\n      begin_type = mid_type;\n    } else {",
              "  assert(begin_type <= 0);\n\n  while (begin + 1 < end) {\n    size_t mid = (begin + end) / 2;\n    int mid_type = half_space.Compare(\n        vertex(mid % vertex_count()).DropDimension(drop_dimension));\n    if (mid_type <= 0) {\n      begin = mid;\n      begin_type = mid_type;\n      if (mid_type == 0) break;  // only the last one is on the plane\n    } else {")],
  demo='', needs='', breaks=''),
 dict(id='s01-touching-side', property='S01',
  edits=[(CP, "      if ((initial_compare ^ compare) >= 0) {\n        // We're back to the first side again. The polygon is completely on one\n        // side.\n        first_side->first = index;\n        first_side->second += vertex_count();",
              "      if ((initial_compare ^ compare) >= 0) {\n        // We're back to the first side again. The polygon is completely on one\n        // side, with a vertex or an edge on the line.\n        first_side->first = first_side->second +\n          (index > first_side->second + 1 ? 2 : 1);\n        first_side->second += vertex_count();")],
  demo=demo(['convex_polygon'], '''
  Pts v{{0,0},{5,0},{10,0},{10,10},{0,10}};
  std::vector<long> w(5, 1);''' + TRY, POLY),
  needs='a polygon of fewer than ten vertices that touches the plane with three vertices of one straight side, starting with a vertex off the plane', breaks='the range of the side the polygon is on includes a vertex on the plane'),
 dict(id='s01-parallel-order', property='S01',
  edits=[(CP, "        half_space.d() *\n        normal().components()[drop_dimension()]) * flip;", "        half_space.d() *\n        normal().components()[drop_dimension()]) *\n        (half_space.normal().components()[drop_dimension()].GetSign() < 0 ?\n         -1 : 1) * (half_space.normal().components()[drop_dimension()].GetAbsMult() *\n         flip);")],
  demo='', needs='', breaks=''),
]
SEEDS = [s for s in SEEDS if s['demo']]

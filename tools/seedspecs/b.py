H = '#include <cstdio>\n#include <cstdlib>\n#include <utility>\n#include <vector>\n'
def demo(inc, body, pre=''):
    return H + ''.join('#include "walnut/%s.h"\n' % i for i in inc) + 'using namespace walnut;\n#define CHECK(c) do { if (!(c)) { fprintf(stderr, "wrong: %s\\n", #c); return 1; } } while (0)\n' + pre + 'int main() {\n' + body + '\n  return 0;\n}\n'
BW = 'include/walnut/big_int_words.h'
DD = 'include/walnut/deed.h'
BF = 'include/walnut/boolean_operation_filter.h'
BV = 'include/walnut/bsp_visitor.h'
INFO = '''
static BSPContentInfo info(int64_t pwn, size_t interior) {
  BSPContentInfo i;
  i.pwn = pwn;
  i.has_interior_polygons = interior;
  return i;
}
'''
SEEDS = [
 dict(id='a07-move-assign-capacity', property='A07',
  edits=[(BW, "    first_ = other.first_;\n    extra_size_ = other.extra_size_;\n    BigUIntWord* const extra = extra_;",
              "    first_ = other.first_;\n    extra_size_ = other.extra_size_;\n    if (extra_size_ <= extra_capacity()) {\n      for (size_t i = 1; i < extra_size_; ++i) {\n        extra_[i] = other.extra_[i];\n      }\n      return *this;\n    }\n    BigUIntWord* const extra = extra_;")],
  demo=demo(['big_int_words'], '''
  BigIntWords a(5), b(4);
  for (int i = 0; i < 5; ++i) a[i] = BigUIntWord{100u + i};
  for (int i = 0; i < 4; ++i) b[i] = BigUIntWord{200u + i};
  a = std::move(b);
  CHECK(a.size() == 4);
  for (int i = 0; i < 4; ++i) CHECK(a[i] == BigUIntWord{200u + i});'''),
  needs='move assignment onto a container with enough capacity for at least two words', breaks='the second word is not taken over'),
 dict(id='a07-resize-keeps-short', property='A07',
  edits=[(BW, "      BigUIntWord* new_extra = AllocateExtra(extra_size);\n      for (size_t i = 0; i < extra_size_; ++i) {\n        new_extra[i] = extra_[i];\n      }\n      FreeExtra(extra_);\n      extra_ = new_extra;\n    }\n    extra_size_ = extra_size;\n  }\n\n  // If the resize causes the container to grow, the additional entries are\n  // set",
              "      BigUIntWord* new_extra = AllocateExtra(extra_size);\n      for (size_t i = 0; i < extra_capacity(); ++i) {\n        new_extra[i] = extra_[i];\n      }\n      FreeExtra(extra_);\n      extra_ = new_extra;\n    } else if (extra_size == 0 && extra_size_ > 8) {\n      // Give back the storage of numbers that became small.\n      FreeExtra(extra_);\n      extra_ = nullptr;\n      return;\n    }\n    extra_size_ = extra_size;\n  }\n\n  // If the resize causes the container to grow, the additional entries are\n  // set")],
  demo=demo(['big_int_words'], '''
  BigIntWords a(12);
  for (int i = 0; i < 12; ++i) a[i] = BigUIntWord{100u + i};
  a.resize(1);
  CHECK(a.size() == 1);
  CHECK(a[0] == BigUIntWord{100u});'''),
  needs='shrinking a container of ten or more words to one word', breaks='the size is not updated although the storage was released'),
 dict(id='b01-union-undecided', property='B01',
  edits=[(BF, "      total.second = (!total.first || total.second) &&\n                     (!id_result.first || id_result.second) &&\n                     (total.second || id_result.second);\n      total.first |= id_result.first;",
              "      total.second |= id_result.second;\n      total.first |= id_result.first;\n      if (total.first && !id_result.second) {\n        // Nothing that follows can change that.\n        total.second = false;\n        break;\n      }")],
  demo=demo(['bsp_content_info', 'boolean_operation_filter'], '''
  UnionIdsFilter f(std::vector<BSPContentId>{0, 1});
  // inside 0, but a facet of 0 follows; outside 1
  std::pair<bool, bool> r = f({info(1, 1), info(0, 0)});
  CHECK(r.first);
  CHECK(r.second);''', INFO),
  needs='a list where an undecided member is inside and a later member is decided and outside', breaks='the union is reported as decided'),
 dict(id='b01-odd-negative', property='B01',
  edits=[(BV, "return std::make_pair(content_info_by_id[accept_id_].pwn & 1,", "return std::make_pair(content_info_by_id[accept_id_].pwn % 2 == 1 ||\n                            content_info_by_id[accept_id_].pwn == -1,")],
  demo=demo(['convex_polygon', 'aabb_convex_polygon', 'bsp_tree', 'bsp_visitor'], '''
  OddPolygonFilter f(0);
  CHECK(f({info(-3, 0)}).first);
  CHECK(f({info(-1, 0)}).first);
  CHECK(f({info(3, 0)}).first);
  CHECK(!f({info(-2, 0)}).first);''', INFO),
  needs='an odd winding number below -1', breaks='the point is reported as outside'),
 dict(id='u01-swap-borrowed', property='U01',
  edits=[(DD, "    if (object_) {\n      object_->owner_ = &other;\n    }\n    std::swap(object_, other.object_);\n    if (object_) {\n      object_->owner_ = this;\n    }\n    std::swap(lender_, other.lender_);",
              "    if (object_ == nullptr) {\n      std::swap(object_, other.object_);\n      if (object_) {\n        object_->owner_ = this;\n        std::swap(lender_, other.lender_);\n      }\n      return;\n    }\n    object_->owner_ = &other;\n    std::swap(object_, other.object_);\n    if (object_) {\n      object_->owner_ = this;\n    }\n    std::swap(lender_, other.lender_);")],
  demo=demo(['deed'], '''
  Thing* t = new Thing;
  Deed<Thing> a(t);
  Deed<Thing> borrowed = a.Lend();
  delete t;            // the borrowed deed follows and becomes null
  CHECK(borrowed.get() == nullptr);
  {
    Deed<Thing> c;
    c.swap(borrowed);  // c now has to be returned to a
    CHECK(a.is_lender());
  }
  CHECK(!a.is_lender());''', 'struct Thing : DeedTarget { int v = 0; };\n'),
  needs='swapping two deeds that both lost their object while one of them is borrowed', breaks='the borrowed deed keeps its lender'),
 dict(id='u01-object-assign', property='U01',
  edits=[(DD, "  if (owner_) {\n    owner_->object_ = &other;\n  }\n  std::swap(owner_, other.owner_);",
              "  if (other.owner_ && owner_ && other.owner_->lender_ == nullptr) {\n    owner_->object_ = &other;\n  } else if (owner_ && !other.owner_) {\n    owner_->object_ = &other;\n  }\n  std::swap(owner_, other.owner_);")],
  demo=demo(['deed'], '''
  Thing x, y;
  Deed<Thing> a(&x), b(&y);
  {
    Deed<Thing> lent = b.Lend();
    x = std::move(y);
    CHECK(lent.get() == &x);
    CHECK(a.get() == &y);
    x = std::move(y);
  }''', 'struct Thing : DeedTarget { int v = 0; };\n'),
  needs='move assignment between two owned objects where the deed of the source is borrowed', breaks='the deed of the target object still points to the target'),
]

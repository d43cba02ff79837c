H = '#include <cstdio>\n#include <cstdlib>\n'
def demo(inc, body):
    return H + ''.join('#include "walnut/%s.h"\n' % i for i in inc) + 'using namespace walnut;\n#define CHECK(c) do { if (!(c)) { fprintf(stderr, "wrong: %s\\n", #c); return 1; } } while (0)\nint main() {\n' + body + '\n  return 0;\n}\n'
BI = 'include/walnut/big_int.h'
BC = 'src/walnut/big_int.cpp'
BW = 'include/walnut/big_uint_word.h'
SEEDS = [
 dict(id='a01-increment-trim', property='A01',
  edits=[(BI, "      ++words_[i];\n      if (words_[i] != 0) {\n        Trim();\n        return *this;",
              "      ++words_[i];\n      if (words_[i] != 0) {\n        return *this;")],
  demo=demo(['big_int'], '''
  BigInt a = -(BigInt(1) << 63) - BigInt(1);
  ++a;
  CHECK(a == -(BigInt(1) << 63));'''),
  needs='incrementing a negative integer whose top word becomes redundant', breaks='the result is not in the shortest representation, so it compares unequal to the same value'),
 dict(id='a01-subtract-self', property='A01',
  edits=[(BI, "    // `other` may be the same object as *this, so get its size before resizing.\n    size_t other_used_words = other.used_words();\n    words_.resize(std::max(old_used_words, other_used_words) + 1);\n    for (; i < common_words; i++) {\n      words_[i] = words_[i].Subtract(",
              "    words_.resize(std::max(old_used_words, other.used_words()) + 1);\n    const size_t other_used_words = other.used_words();\n    for (; i < common_words; i++) {\n      words_[i] = words_[i].Subtract(")],
  demo=demo(['big_int'], '''
  BigInt a = BigInt(1) << 100, b = -a;
  a -= a;
  b -= b;
  CHECK(a.IsZero());
  CHECK(b.IsZero());
  BigInt c = (BigInt(1) << 64) + BigInt(5);
  for (int i = 0; i < 3; ++i) { c += BigInt(1); c -= c; CHECK(c == 0); c = -(BigInt(3) << 64); }'''),
  needs='an integer of several words subtracted from itself in place', breaks='the size of the operand is read after the result was resized'),
 dict(id='a02-determinant', property='A02',
  edits=[(BI, "    return (r1_c1*r2_c2).SubtractMultiply(r2_c1, r1_c2);", "    if (r1_c1 == r1_c2 && r1_c1.used_words() > 2) {\n      return r1_c1 * r2_c2 - r1_c2 * r2_c2.abs();\n    }\n    return (r1_c1*r2_c2).SubtractMultiply(r2_c1, r1_c2);")],
  demo=demo(['big_int'], '''
  BigInt a = BigInt(1) << 150;
  CHECK(BigInt::Determinant(a, a, BigInt(3), BigInt(5)) == a * BigInt(2));'''),
  needs='a matrix whose first row holds two equal integers of three or more words', breaks='the determinant'),
 dict(id='a02-power-of-two-int', property='A02',
  edits=[(BI, "  BigInt& operator*=(int other) {\n", "  BigInt& operator*=(int other) {\n    const unsigned bits = static_cast<unsigned>(other);\n    if (bits > 1 && (bits & (bits - 1)) == 0) {\n      return *this = *this << BigUIntWord{bits}.GetTrailingZeros();\n    }\n")],
  demo=demo(['big_int'], '''
  BigInt a(7);
  a *= -2147483647 - 1;
  CHECK(a == -(BigInt(7) << 31));'''),
  needs='in-place multiplication by the most negative int', breaks='the sign of the product'),
 dict(id='a04-shift-narrow', property='A04',
  edits=[(BI, "    size_t out = shift / bits_per_word;", "    size_t out = static_cast<unsigned short>(shift / bits_per_word);")],
  demo=demo(['big_int'], '''
  size_t k = size_t{64} << 16;
  BigInt a = BigInt(3) << k;
  CHECK(a == (BigInt(3) << (k / 2)) * (BigInt(1) << (k / 2)));'''),
  needs='a shift by 2^22 bits or more', breaks='the number of whole words shifted'),
 dict(id='a04-max-value-words', property='A04',
  edits=[(BC, "  for (unsigned i = 0; i < set_last_word_bits; ++i) {\n    last_word |= BigUIntWord{1} << i;\n  }",
              "  if (set_last_word_bits) {\n    last_word = BigUIntWord((~uint64_t{0} >> 1) >> (63 - set_last_word_bits) >> (set_bits / 512));\n  }")],
  demo=demo(['big_int'], '''
  for (unsigned k = 0; k < 700; ++k) CHECK(BigInt::max_value(k) + BigInt(1) == BigInt(1) << k);'''),
  needs='a width of 512 bits or more', breaks='the largest integer of that width'),
 dict(id='a05-less-low-word', property='A05',
  edits=[(BI, "    BigUIntWord unsigned_flip(signed_flip);\n    for (i--; ssize_t(i) > 0; i--) {\n      if (words_[i] != other.words_[i]) {\n        return (words_[i] ^ unsigned_flip) < (other.words_[i] ^ unsigned_flip);",
              "    BigUIntWord unsigned_flip(signed_flip);\n    for (i--; ssize_t(i) > 0; i--) {\n      if (words_[i] != other.words_[i]) {\n        return (BigIntWord{words_[i]} ^ signed_flip) < (BigIntWord{other.words_[i]} ^ signed_flip);")],
  demo=demo(['big_int'], '''
  BigInt a = (BigInt(1) << 128) + (BigInt(1) << 127), b = (BigInt(1) << 128) + (BigInt(1) << 64);
  CHECK(b.LessThan(false, a));
  CHECK(!a.LessThan(false, b));'''),
  needs='two three-word integers that first differ in the sign bit of a middle word', breaks='the flippable order'),
 dict(id='a05-equal-machine-int', property='A05',
  edits=[(BI, "      return BigIntWord{words_[used_words() - 1]} >= 0;\n    }\n    return BigIntWord{words_[0]} >= other;",
              "      return BigIntWord{words_[used_words() - 2]} >= 0 ||\n             BigIntWord{words_[used_words() - 1]} >= 0;\n    }\n    return BigIntWord{words_[0]} >= other;")],
  demo=demo(['big_int'], '''
  BigInt a = -(BigInt(1) << 64) + BigInt(1);
  CHECK(!(a >= 0));'''),
  needs='a negative two-word integer whose low word looks nonnegative', breaks='comparison with a machine integer'),
 dict(id='a06-unaccelerated-scan', property='A06',
  edits=[(BW, "      static_cast<uint64_t>(0xF0),\n      static_cast<uint64_t>(0xC),", "      static_cast<uint64_t>(0xF0),\n      static_cast<uint64_t>(0x8),")],
  demo=demo(['big_uint_word'], '''
  for (unsigned k = 0; k < 64; ++k) {
    CHECK(BigUIntWord(uint64_t{1} << k).GetHighestSetBitUnaccelerated() == k + 1);
  }'''),
  needs='a word whose highest set bit is at position 2 modulo 4', breaks='the bit scan'),
 dict(id='a06-multiply-add-overflow', property='A06',
  edits=[(BW, "    unsigned __int128 full = static_cast<unsigned __int128>(this->i_) *\n      static_cast<unsigned __int128>(other.i_) + add.i_ + carry_in;",
              "    unsigned __int128 full = static_cast<unsigned __int128>(this->i_) *\n      static_cast<unsigned __int128>(other.i_) + (add.i_ + carry_in);")],
  demo=demo(['big_uint_word'], '''
  BigUIntWord hi;
  BigUIntWord lo = BigUIntWord(2).MultiplyAdd(BigUIntWord(3), BigUIntWord::max_value(), true, &hi);
  CHECK(hi == 1 && lo == 6);'''),
  needs='an addend of all ones together with a carry', breaks='the carry into the high word is lost'),
]

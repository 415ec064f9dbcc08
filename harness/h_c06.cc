// C06: numeric type helpers - IEEE classification and half precision conversion.
#include <cmath>
#include <cstring>

#include "absl/numeric/int128.h"
#include "mpact/sim/generic/signed_type.h"
#include "mpact/sim/generic/type_helpers.h"
#include "mpact/sim/generic/variant_helper.h"
#include "vh.h"

using namespace mpact::sim::generic;

namespace {
// Reference geometry of the IEEE formats, by storage width.
struct Fmt {
  int bits, exp, sig, bias;
};
constexpr Fmt kHalf{16, 5, 10, 15}, kSingle{32, 8, 23, 127}, kDouble{64, 11, 52, 1023};

template <typename T>
struct Form;
#define FORM(T, F) template <> struct Form<T> { static constexpr Fmt f = F; static const char* name() { return #T; } };
FORM(HalfFP, kHalf) FORM(float, kSingle) FORM(double, kDouble)
FORM(uint16_t, kHalf) FORM(int16_t, kHalf) FORM(uint32_t, kSingle) FORM(int32_t, kSingle)
FORM(uint64_t, kDouble) FORM(int64_t, kDouble)

template <typename T>
void Constants(vh::Case& c) {
  using I = FPTypeInfo<T>;
  constexpr Fmt f = Form<T>::f;
  const char* n = Form<T>::name();
  c.check(sizeof(typename I::UIntType) * 8 == f.bits, "uint", "%s: unsigned type has %zu bytes", n, sizeof(typename I::UIntType));
  c.check(sizeof(typename I::IntType) == sizeof(typename I::UIntType) && std::is_signed<typename I::IntType>::value, "int", "%s: int type", n);
  c.check(I::kBitSize == f.bits, "constants", "%s: bit size %d, expected %d", n, I::kBitSize, f.bits);
  c.check(I::kExpSize == f.exp, "constants", "%s: exponent size %d, expected %d", n, I::kExpSize, f.exp);
  c.check(I::kSigSize == f.sig, "constants", "%s: significand size %d, expected %d", n, I::kSigSize, f.sig);
  c.check(I::kExpBias == f.bias, "constants", "%s: bias %d, expected %d", n, I::kExpBias, f.bias);
  uint64_t em = ((1ull << f.exp) - 1) << f.sig, sm = (1ull << f.sig) - 1, sign = 1ull << (f.bits - 1);
  c.check((uint64_t)I::kExpMask == em, "constants", "%s: exponent mask", n);
  c.check((uint64_t)I::kSigMask == sm, "constants", "%s: significand mask", n);
  c.check((uint64_t)I::kPosInf == em, "constants", "%s: +inf", n);
  c.check((uint64_t)I::kNegInf == (em | sign), "constants", "%s: -inf", n);
  c.check((uint64_t)I::kCanonicalNaN == (em | (1ull << (f.sig - 1))), "constants", "%s: canonical NaN", n);
  c.check((uint64_t)I::kInfMask == (sign - 1), "constants", "%s: inf mask", n);
  c.ev("constants", 10);
}
template <typename T>
void Classify(vh::Case& c, uint64_t bits) {
  using I = FPTypeInfo<T>;
  constexpr Fmt f = Form<T>::f;
  typename I::UIntType u = (typename I::UIntType)bits;
  bits = u;
  T v;
  static_assert(sizeof(v) == sizeof(u), "");
  memcpy(&v, &u, sizeof v);
  uint64_t em = ((1ull << f.exp) - 1), e = (bits >> f.sig) & em, s = bits & ((1ull << f.sig) - 1);
  bool sign = (bits >> (f.bits - 1)) & 1;
  bool inf = e == em && s == 0, nan = e == em && s != 0, q = nan && ((s >> (f.sig - 1)) & 1);
  const char* n = Form<T>::name();
  c.check(I::IsInf(v) == inf, "isinf", "%s %lx: IsInf %d", n, bits, I::IsInf(v));
  c.check(I::IsNaN(v) == nan, "isnan", "%s %lx: IsNaN %d", n, bits, I::IsNaN(v));
  c.check(I::IsQNaN(v) == q, "isqnan", "%s %lx: IsQNaN %d", n, bits, I::IsQNaN(v));
  c.check(I::IsSNaN(v) == (nan && !q), "issnan", "%s %lx: IsSNaN %d", n, bits, I::IsSNaN(v));
  c.check(I::SignBit(v) == sign, "signbit", "%s %lx: SignBit %d", n, bits, I::SignBit(v));
  c.ev(inf ? "classified_inf" : nan ? (q ? "classified_qnan" : "classified_snan") : "classified_finite");
}
template <typename T>
uint64_t Pattern(vh::Rng& r) {
  constexpr Fmt f = Form<T>::f;
  uint64_t e, s, em = (1ull << f.exp) - 1, sm = (1ull << f.sig) - 1;
  switch (r.below(5)) {
    case 0: e = em; break;
    case 1: e = 0; break;
    case 2: e = em - 1; break;
    default: e = r.next() & em; break;
  }
  switch (r.below(6)) {
    case 0: s = 0; break;
    case 1: s = 1ull << (f.sig - 1); break;
    case 2: s = 1ull << r.below(f.sig); break;
    case 3: s = (1ull << r.below(f.sig)) - 1; break;
    default: s = r.next() & sm; break;
  }
  return ((uint64_t)r.coin() << (f.bits - 1)) | (e << f.sig) | s;
}
float RefHalf(uint16_t h) {
  int sign = h >> 15, e = (h >> 10) & 31, s = h & 1023;
  double v;
  if (e == 0) v = std::ldexp((double)s, -24);
  else v = std::ldexp((double)(s + 1024), e - 25);
  return (float)(sign ? -v : v);
}
void HalfOne(vh::Case& c, uint16_t h) {
  float got = ConvertHalfToSingle(HalfFP{h});
  uint32_t g, w;
  memcpy(&g, &got, 4);
  int e = (h >> 10) & 31, s = h & 1023;
  uint32_t sign = (uint32_t)(h >> 15) << 31;
  if (e == 31 && s) {
    // A NaN stays a NaN of the same sign, in canonical form.
    w = 0x7fc00000u | sign;
  } else if (e == 31) {
    w = 0x7f800000u | sign;
  } else {
    float r = RefHalf(h);
    memcpy(&w, &r, 4);
    if ((h & 0x7fff) == 0) w = sign;
  }
  c.check(g == w, "half", "half %04x converted to %08x, expected %08x", h, g, w);
  c.ev(e == 0 ? (s ? "half_subnormal" : "half_zero") : e == 31 ? "half_special" : "half_normal");
  if (!(e == 31)) c.check(FloatingPointToString(HalfFP{h}) == std::to_string(RefHalf(h)), "half-string", "half %04x as text", h);
}
enum class E8 : uint8_t { a = 0, b = 255 };
enum class E64 : int64_t { a = -5, b = 1ll << 40 };
}  // namespace

// Every half precision value, and every 16 bit pattern through the classifiers.
VH_SCENARIO(C06, half_exhaustive, 256, 256) {
  c.op("half values with high byte %02lx", c.index);
  for (int lo = 0; lo < 256; ++lo) {
    uint16_t h = (uint16_t)((c.index << 8) | lo);
    HalfOne(c, h);
    Classify<HalfFP>(c, h);
    Classify<uint16_t>(c, h);
    Classify<int16_t>(c, h);
    c.seen(h);
  }
  c.nontrivial();
}
VH_SCENARIO(C06, classify, 2000, 60000) {
  for (int i = 0; i < 60; ++i) {
    uint64_t s = Pattern<float>(c.rng), d = Pattern<double>(c.rng);
    if (i == 0) c.op("patterns %lx %lx ...", s, d);
    Classify<float>(c, s);
    Classify<uint32_t>(c, s);
    Classify<int32_t>(c, s);
    Classify<double>(c, d);
    Classify<uint64_t>(c, d);
    Classify<int64_t>(c, d);
    c.seen(vh::Comb(s, 1));
    c.seen(vh::Comb(d, 2));
  }
  c.nontrivial();
}
VH_SCENARIO(C06, types, 1, 1) {
  c.op("constants and type relations");
  Constants<HalfFP>(c); Constants<float>(c); Constants<double>(c);
  Constants<uint16_t>(c); Constants<int16_t>(c); Constants<uint32_t>(c); Constants<int32_t>(c);
  Constants<uint64_t>(c); Constants<int64_t>(c);
#define SAME(a, ...) c.check((std::is_same<a, __VA_ARGS__>::value), "types", #a " is not " #__VA_ARGS__); c.ev("type_relations")
  SAME(WideType<int8_t>::type, int16_t); SAME(WideType<int16_t>::type, int32_t); SAME(WideType<int32_t>::type, int64_t);
  SAME(WideType<int64_t>::type, absl::int128); SAME(WideType<uint8_t>::type, uint16_t); SAME(WideType<uint16_t>::type, uint32_t);
  SAME(WideType<uint32_t>::type, uint64_t); SAME(WideType<uint64_t>::type, absl::uint128);
  SAME(NarrowType<int16_t>::type, int8_t); SAME(NarrowType<int32_t>::type, int16_t); SAME(NarrowType<int64_t>::type, int32_t);
  SAME(NarrowType<uint16_t>::type, uint8_t); SAME(NarrowType<uint32_t>::type, uint16_t); SAME(NarrowType<uint64_t>::type, uint32_t);
  using A1 = SameSignedType<uint32_t, int8_t>::type; SAME(A1, int32_t);
  using A2 = SameSignedType<int32_t, uint8_t>::type; SAME(A2, uint32_t);
  using A3 = SameSignedType<int8_t, int64_t>::type; SAME(A3, int8_t);
  using A4 = SameSignedType<uint64_t, uint8_t>::type; SAME(A4, uint64_t);
  SAME(MakeUnsigned<int8_t>::type, uint8_t); SAME(MakeUnsigned<int16_t>::type, uint16_t); SAME(MakeUnsigned<int32_t>::type, uint32_t);
  SAME(MakeUnsigned<int64_t>::type, uint64_t); SAME(MakeUnsigned<absl::int128>::type, absl::uint128);
  SAME(MakeUnsigned<absl::uint128>::type, absl::uint128); SAME(MakeUnsigned<uint32_t>::type, uint32_t);
  SAME(internal::SignedType<uint8_t>::type, int8_t); SAME(internal::SignedType<uint16_t>::type, int16_t);
  SAME(internal::SignedType<uint32_t>::type, int32_t); SAME(internal::SignedType<uint64_t>::type, int64_t);
  SAME(internal::SignedType<int8_t>::type, int8_t); SAME(internal::SignedType<int16_t>::type, int16_t);
  SAME(internal::SignedType<int32_t>::type, int32_t); SAME(internal::SignedType<int64_t>::type, int64_t); SAME(internal::SignedType<bool>::type, bool);
  c.check(*E8::b == 255 && *E8::a == 0 && *E64::a == -5 && *E64::b == (1ll << 40), "enum", "enum value");
  c.check(IsMpactFp<HalfFP>::value && IsMpactFp<float>::value && IsMpactFp<double>::value && !IsMpactFp<int>::value && !IsMpactFp<uint64_t>::value, "isfp", "IsMpactFp");
  using V = absl::variant<int, float, char>;
  c.check(IsMemberOfVariant<V, int>::value && IsMemberOfVariant<V, float>::value && IsMemberOfVariant<V, char>::value &&
          !IsMemberOfVariant<V, double>::value && !IsMemberOfVariant<V, unsigned>::value, "variant", "IsMemberOfVariant");
  c.nontrivial();
}

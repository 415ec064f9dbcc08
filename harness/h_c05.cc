// C05: constant operands present their value under every width and signedness.
#include <limits>
#include <memory>

#include "absl/strings/str_cat.h"
#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/literal_operand.h"
#include "mpact/sim/generic/wrapper_operand.h"
#include "vh.h"

using namespace mpact::sim::generic;

namespace {
// The reference works on the mathematical value (as a 128 bit integer): the
// result is that value modulo 2^n, read back as signed or unsigned.
using i128 = __int128;
template <typename R>
R Wrap(i128 v) {
  constexpr int n = sizeof(R) * 8;
  unsigned __int128 m = ((unsigned __int128)v) & ((((unsigned __int128)1) << n) - 1);
  if (std::is_signed<R>::value && (m >> (n - 1))) return (R)(i128)(m - (((unsigned __int128)1) << n));
  return (R)m;
}
void CheckAll(vh::Case& c, SourceOperandInterface& o, int i, i128 v, bool constant = true) {
  c.check(o.AsBool(i) == (v != 0), "bool", "AsBool of %ld", (long)v);
  c.check(o.AsInt8(i) == Wrap<int8_t>(v), "int8", "AsInt8 of %ld gave %d", (long)v, o.AsInt8(i));
  c.check(o.AsUint8(i) == Wrap<uint8_t>(v), "uint8", "AsUint8 of %ld gave %u", (long)v, o.AsUint8(i));
  c.check(o.AsInt16(i) == Wrap<int16_t>(v), "int16", "AsInt16 of %ld gave %d", (long)v, o.AsInt16(i));
  c.check(o.AsUint16(i) == Wrap<uint16_t>(v), "uint16", "AsUint16 of %ld gave %u", (long)v, o.AsUint16(i));
  c.check(o.AsInt32(i) == Wrap<int32_t>(v), "int32", "AsInt32 of %ld gave %d", (long)v, o.AsInt32(i));
  c.check(o.AsUint32(i) == Wrap<uint32_t>(v), "uint32", "AsUint32 of %ld gave %u", (long)v, o.AsUint32(i));
  c.check(o.AsInt64(i) == Wrap<int64_t>(v), "int64", "AsInt64 of %ld gave %ld", (long)v, o.AsInt64(i));
  c.check(o.AsUint64(i) == Wrap<uint64_t>(v), "uint64", "AsUint64 of %ld gave %lu", (long)v, o.AsUint64(i));
  if (constant) c.check(!o.GetObject().has_value(), "object", "a constant operand has an object");
  c.ev("conversions", 9);
}
std::vector<int> Shape(vh::Rng& r) {
  std::vector<int> s;
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; ++i) s.push_back((int)r.range(1, 64));
  return s;
}
template <typename T>
void Imm(vh::Case& c) {
  auto& r = c.rng;
  T v = (T)r.val();
  if (r.chance(1, 6)) v = std::numeric_limits<T>::min();
  if (r.chance(1, 6)) v = std::numeric_limits<T>::max();
  c.op("immediate %zu bytes %s value %ld", sizeof(T), std::is_signed<T>::value ? "signed" : "unsigned", (long)v);
  auto shape = Shape(r);
  std::string str = r.ident();
  std::string num = std::is_signed<T>::value ? std::to_string((long long)v) : std::to_string((unsigned long long)v);
  ImmediateOperand<T> a(v), b(v, str), d(v, shape), e(v, shape, str);
  SourceOperandInterface* ops[] = {&a, &b, &d, &e};
  for (int k = 0; k < 4; ++k) {
    CheckAll(c, *ops[k], 0, (i128)v);
    CheckAll(c, *ops[k], (int)r.range(0, 1000), (i128)v);
    c.check(ops[k]->shape() == (k < 2 ? std::vector<int>{1} : shape), "shape", "shape of form %d", k);
    c.check(ops[k]->AsString() == ((k & 1) ? str : num), "string", "AsString of form %d is '%s', expected '%s'", k, ops[k]->AsString().c_str(), ((k & 1) ? str : num).c_str());
  }
  c.seen(vh::Comb(sizeof(T) * 2 + std::is_signed<T>::value, (uint64_t)v));
  if (v != 0) c.nontrivial();
  // per-element vector constants
  int n = (int)r.range(1, 20);
  std::vector<T> vals(n);
  for (auto& x : vals) x = (T)r.val();
  VectorImmediateOperand<T> v1(vals), v2(vals, {n});
  for (SourceOperandInterface* o : {(SourceOperandInterface*)&v1, (SourceOperandInterface*)&v2}) {
    for (int i = 0; i < n; ++i) CheckAll(c, *o, i, (i128)vals[i]);
    c.check(o->shape() == std::vector<int>{n}, "vshape", "shape of a vector constant");
    c.check(!o->GetObject().has_value(), "vobject", "a vector constant has an underlying object");
    std::string t = o->AsString(), first = std::to_string(vals[0]), last = std::to_string(vals[n - 1]);
    c.check(t == "[" + first + "..." + last + "]", "vstring", "text of a vector constant from %s to %s: %s", first.c_str(), last.c_str(), t.c_str());
    c.ev("vector_operands");
  }
}
template <int L>
void Lit(vh::Case& c) {
  auto shape = Shape(c.rng);
  std::string str = c.rng.ident();
  IntLiteralOperand<L> a, b((absl::string_view)str), d(shape, str), e(shape);
  SourceOperandInterface* ops[] = {&a, &b, &d, &e};
  for (int k = 0; k < 4; ++k) {
    CheckAll(c, *ops[k], (int)c.rng.below(100), L);
    c.check(ops[k]->AsString() == (k == 1 || k == 2 ? str : std::to_string(L)), "string", "literal %d form %d: '%s'", L, k, ops[k]->AsString().c_str());
    if (k >= 2) c.check(ops[k]->shape() == shape, "shape", "literal shape");
  }
  c.ev("literals");
}
template <bool L>
void BLit(vh::Case& c) {
  auto shape = Shape(c.rng);
  std::string str = c.rng.ident();
  BoolLiteralOperand<L> a, b((absl::string_view)str), d(shape, str), e(shape);
  SourceOperandInterface* ops[] = {&a, &b, &d, &e};
  for (int k = 0; k < 4; ++k) {
    CheckAll(c, *ops[k], (int)c.rng.below(100), L ? 1 : 0);
    c.check(ops[k]->AsString() == (k == 1 || k == 2 ? str : std::to_string((int)L)), "string", "bool literal form %d", k);
    if (k >= 2) c.check(ops[k]->shape() == shape, "shape", "literal shape");
  }
  BoolLiteralPredicateOperand<L> p;
  c.check(p.Value() == L, "predicate", "predicate value");
  c.check(p.AsString().empty(), "predicate", "predicate text");
  c.ev("bool_literals");
}
}  // namespace

VH_SCENARIO(C05, immediates, 8000, 400000) {
  switch (c.rng.below(8)) {
    case 0: Imm<int8_t>(c); break;
    case 1: Imm<uint8_t>(c); break;
    case 2: Imm<int16_t>(c); break;
    case 3: Imm<uint16_t>(c); break;
    case 4: Imm<int32_t>(c); break;
    case 5: Imm<uint32_t>(c); break;
    case 6: Imm<int64_t>(c); break;
    default: Imm<uint64_t>(c); break;
  }
}
VH_SCENARIO(C05, literals, 24, 240) {
  c.op("literal family");
  Lit<0>(c); Lit<1>(c); Lit<-1>(c); Lit<127>(c); Lit<128>(c); Lit<-128>(c); Lit<-129>(c); Lit<255>(c); Lit<256>(c);
  Lit<32767>(c); Lit<32768>(c); Lit<-32768>(c); Lit<-32769>(c); Lit<65535>(c); Lit<65536>(c); Lit<8388608>(c);
  Lit<2147483647>(c); Lit<-2147483647 - 1>(c); Lit<-2147483647>(c); Lit<42>(c); Lit<-42>(c); Lit<1000000>(c);
  Lit<-256>(c); Lit<-65536>(c); Lit<0x12345678>(c);
  BLit<true>(c);
  BLit<false>(c);
  c.nontrivial();
}
namespace {
struct Wrapped {
  std::string s;
  std::string AsString() const { return s; }
};
}  // namespace
VH_SCENARIO(C05, wrappers, 500, 5000) {
  auto shape = Shape(c.rng);
  Wrapped w{c.rng.ident(12)};
  c.op("wrapper of %s", w.s.c_str());
  WrapperSourceOperand<Wrapped> s(&w, shape);
  WrapperDestinationOperand<Wrapped> d(&w, shape);
  c.check(std::any_cast<Wrapped*>(s.GetObject()) == &w, "object", "source object");
  c.check(std::any_cast<Wrapped*>(d.GetObject()) == &w, "object", "destination object");
  c.check(s.shape() == shape && d.shape() == shape, "shape", "wrapper shape");
  CheckAll(c, s, (int)c.rng.below(100), 0, false);  // no value of its own
  c.check(d.latency() == 0 && d.AllocateDataBuffer() == nullptr && d.CopyDataBuffer() == nullptr, "value", "a wrapper destination has a buffer or latency");
  w.s += "!";
  c.check(s.AsString() == w.s && d.AsString() == w.s, "string", "wrapper text");
  c.ev("wrappers");
  c.nontrivial();
}

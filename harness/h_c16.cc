// C16: instruction semantics helpers - typed source access and n-ary scalar / vector operations.
#include <cmath>
#include <memory>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/instruction_helpers.h"
#include "mpact/sim/generic/register.h"
#include "vh.h"

using namespace mpact::sim::generic;

namespace {
// A source operand whose every accessor and element gives a different pattern.
struct Probe : SourceOperandInterface {
  uint64_t salt;
  mutable int calls = 0;
  explicit Probe(uint64_t s) : salt(s) {}
  uint64_t h(int kind, int i) const { ++calls; return vh::Mix(salt + kind * 1000003ull + (uint64_t)i * 7919); }
  bool AsBool(int i) override { return h(0, i) & 1; }
  int8_t AsInt8(int i) override { return h(1, i); }
  uint8_t AsUint8(int i) override { return h(2, i); }
  int16_t AsInt16(int i) override { return h(3, i); }
  uint16_t AsUint16(int i) override { return h(4, i); }
  int32_t AsInt32(int i) override { return h(5, i); }
  uint32_t AsUint32(int i) override { return h(6, i); }
  int64_t AsInt64(int i) override { return h(7, i); }
  uint64_t AsUint64(int i) override { return h(8, i); }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {8}; }
  std::string AsString() const override { return "probe"; }
};
template <typename T>
uint64_t Bits(T v) {
  uint64_t x = 0;
  memcpy(&x, &v, sizeof v);
  return x;
}
template <typename T>
uint64_t Want(Probe& p, int e) {
  if constexpr (std::is_same_v<T, bool>) return p.AsBool(e);
  else if constexpr (std::is_same_v<T, int8_t>) return (uint8_t)p.AsInt8(e);
  else if constexpr (std::is_same_v<T, uint8_t>) return p.AsUint8(e);
  else if constexpr (std::is_same_v<T, int16_t>) return (uint16_t)p.AsInt16(e);
  else if constexpr (std::is_same_v<T, uint16_t> || std::is_same_v<T, HalfFP>) return p.AsUint16(e);
  else if constexpr (std::is_same_v<T, int32_t>) return (uint32_t)p.AsInt32(e);
  else if constexpr (std::is_same_v<T, uint32_t> || std::is_same_v<T, float>) return p.AsUint32(e);
  else if constexpr (std::is_same_v<T, int64_t>) return p.AsInt64(e);
  else return p.AsUint64(e);
}
template <typename T>
void One(vh::Case& c, Instruction* inst, std::vector<Probe*>& ps, const char* name) {
  for (size_t i = 0; i < ps.size(); ++i) {
    c.check(Bits(GetInstructionSource<T>(inst, i)) == Want<T>(*ps[i], 0), "typed_source", "GetInstructionSource<%s>(inst, %zu)", name, i);
    int e = (int)c.rng.below(8);
    c.check(Bits(GetInstructionSource<T>(inst, i, e)) == Want<T>(*ps[i], e), "typed_element", "GetInstructionSource<%s>(inst, %zu, %d)", name, i, e);
    c.ev("typed_reads", 2);
  }
}
}  // namespace

VH_SCENARIO(C16, sources, 2000, 40000) {
  Instruction* inst = new Instruction(0, nullptr);
  std::vector<Probe*> ps;
  int n = (int)c.rng.range(1, 4);
  for (int i = 0; i < n; ++i) {
    ps.push_back(new Probe(c.rng.next()));
    inst->AppendSource(ps.back());
  }
  One<bool>(c, inst, ps, "bool");
  One<int8_t>(c, inst, ps, "int8_t");
  One<uint8_t>(c, inst, ps, "uint8_t");
  One<int16_t>(c, inst, ps, "int16_t");
  One<uint16_t>(c, inst, ps, "uint16_t");
  One<int32_t>(c, inst, ps, "int32_t");
  One<uint32_t>(c, inst, ps, "uint32_t");
  One<int64_t>(c, inst, ps, "int64_t");
  One<uint64_t>(c, inst, ps, "uint64_t");
  One<float>(c, inst, ps, "float");
  One<double>(c, inst, ps, "double");
  One<HalfFP>(c, inst, ps, "HalfFP");
  for (int i = 0; i < n; ++i) {
    c.check(GetInstructionSource<absl::uint128>(inst, i) == absl::uint128(ps[i]->AsUint64(0)), "u128", "unsigned 128-bit source");
    c.check(GetInstructionSource<absl::int128>(inst, i) == absl::int128(ps[i]->AsInt64(0)), "i128", "signed 128-bit source");
  }
  c.mix(c.rng.next());
  c.nontrivial();
  inst->DecRef();
}

namespace {
template <typename T> using Store = std::conditional_t<std::is_same_v<T, float>, uint32_t, std::conditional_t<std::is_same_v<T, double>, uint64_t, T>>;
struct State : ArchState {
  State() : ArchState("s") {}
};
template <typename T>
T Val(vh::Rng& r) {
  if constexpr (std::is_floating_point_v<T>) return (T)(r.range(-1000, 1000)) / 4;
  else return (T)r.val();
}
template <typename T>
T Conv(double d) { return (T)d; }

// Result = f(args) of mixed types, on vector registers of n elements
template <int N, typename R, typename A, typename B, typename C>
void Ops(vh::Case& c) {
  auto& r = c.rng;
  State st;
  constexpr int n = N;
  int latency = (int)r.range(0, 3);
  VectorRegister<Store<R>, N> rd(&st, "rd");
  VectorRegister<Store<A>, N> ra(&st, "ra");
  VectorRegister<Store<B>, N> rb(&st, "rb");
  VectorRegister<Store<C>, N> rc(&st, "rc");
  auto init = [&](auto& reg, auto tag) {
    using T = decltype(tag);
    auto* db = st.db_factory()->template Allocate<T>(n);
    std::vector<T> v;
    for (int i = 0; i < n; ++i) { v.push_back(Val<T>(r)); db->template Set<T>(i, v[i]); }
    reg.SetDataBuffer(db);
    db->DecRef();
    return v;
  };
  std::vector<R> vd = init(rd, R());
  std::vector<A> va = init(ra, A());
  std::vector<B> vb = init(rb, B());
  std::vector<C> vc = init(rc, C());
  Instruction* inst = new Instruction(0, &st);
  inst->AppendSource(ra.CreateSourceOperand());
  inst->AppendSource(rb.CreateSourceOperand());
  inst->AppendSource(rc.CreateSourceOperand());
  inst->AppendDestination(rd.CreateDestinationOperand(latency));
  std::vector<std::tuple<A, B, C>> calls;
  auto mixv = [](uint64_t a, uint64_t b, uint64_t cc) {
    uint64_t h = vh::Mix(a * 3 + b * 5 + cc * 7);
    if constexpr (std::is_floating_point_v<R>) return (R)(int32_t)h;
    else return (R)h;
  };
  c.mix(r.next());
  int kind = (int)r.below(6);
  bool vec = kind >= 3;
  int elems = vec ? n : 1;
  c.op("kind %d n %d latency %d", kind, n, latency);
  switch (kind) {
    case 0: UnaryOp<R, A>(inst, [&](A a) { calls.push_back({a, B(), C()}); return mixv(Bits(a), 0, 0); }); break;
    case 1: BinaryOp<R, A, B>(inst, [&](A a, B b) { calls.push_back({a, b, C()}); return mixv(Bits(a), Bits(b), 0); }); break;
    case 2: kind = 1; BinaryOp<R, A, B>(inst, [&](A a, B b) { calls.push_back({a, b, C()}); return mixv(Bits(a), Bits(b), 0); }); break;
    case 3: UnaryVectorOp<R, A>(inst, [&](A a) { calls.push_back({a, B(), C()}); return mixv(Bits(a), 0, 0); }); break;
    case 4: BinaryVectorOp<R, A, B>(inst, [&](A a, B b) { calls.push_back({a, b, C()}); return mixv(Bits(a), Bits(b), 0); }); break;
    default: TernaryVectorOp<R, A, B, C>(inst, [&](A a, B b, C cc) { calls.push_back({a, b, cc}); return mixv(Bits(a), Bits(b), Bits(cc)); });
  }
  int args = kind == 0 || kind == 3 ? 1 : kind == 5 ? 3 : 2;
  c.check((int)calls.size() == elems, "calls", "the operation ran %zu times for %d elements", calls.size(), elems);
  std::vector<R> want = vd;
  for (int i = 0; i < elems; ++i) {
    c.check(Bits(std::get<0>(calls[i])) == Bits(va[i]) && (args < 2 || Bits(std::get<1>(calls[i])) == Bits(vb[i])) && (args < 3 || Bits(std::get<2>(calls[i])) == Bits(vc[i])), "arguments", "arguments of element %d", i);
    want[i] = mixv(Bits(va[i]), args < 2 ? 0 : Bits(vb[i]), args < 3 ? 0 : Bits(vc[i]));
  }
  // visible exactly after the latency
  for (int t = 0; t <= latency; ++t) {
    if (t == latency) {
      for (int i = 0; i < elems; ++i) c.check(Bits(rd.data_buffer()->template Get<R>(i)) == Bits(want[i]), "result", "element %d after %d cycles", i, t);
    } else {
      for (int i = 0; i < n; ++i) c.check(Bits(rd.data_buffer()->template Get<R>(i)) == Bits(vd[i]), "early", "element %d changed after %d cycles of %d", i, t, latency);
    }
    if (t < latency) st.AdvanceDelayLines();
  }
  for (int i = 0; i < n; ++i) c.check(Bits(ra.data_buffer()->template Get<A>(i)) == Bits(va[i]), "source", "a source register changed");
  c.ev(vec ? "vector_ops" : "scalar_ops");
  c.nontrivial();
  inst->DecRef();
}
// the forms with one type for the result and one for all the arguments
template <int N, typename R, typename A>
void Two(vh::Case& c) {
  auto& r = c.rng;
  State st;
  constexpr int n = N;
  int latency = (int)r.below(2);
  VectorRegister<Store<R>, N> rd(&st, "rd");
  VectorRegister<Store<A>, N> ra(&st, "ra"), rb(&st, "rb"), rc(&st, "rc");
  VectorRegister<Store<A>, N>* regs[] = {&ra, &rb, &rc};
  std::vector<A> v[3];
  for (int k = 0; k < 3; ++k) {
    auto* db = st.db_factory()->template Allocate<A>(n);
    for (int i = 0; i < n; ++i) { v[k].push_back(Val<A>(r)); db->template Set<A>(i, v[k][i]); }
    regs[k]->SetDataBuffer(db);
    db->DecRef();
  }
  Instruction* inst = new Instruction(0, &st);
  for (auto* g : regs) inst->AppendSource(g->CreateSourceOperand());
  inst->AppendDestination(rd.CreateDestinationOperand(latency));
  auto f = [](uint64_t a, uint64_t b, uint64_t x) { uint64_t h = vh::Mix(a * 3 + b * 5 + x * 7); if constexpr (std::is_floating_point_v<R>) return (R)(int32_t)h; else return (R)h; };
  c.mix(r.next());
  int kind = (int)r.below(5), elems = kind < 2 ? 1 : n, args = 1;
  c.op("two types kind %d n %d latency %d", kind, n, latency);
  switch (kind) {
    case 0: UnaryOp<R, A>(inst, std::function<R(A)>([&](A a) { return f(Bits(a), 0, 0); })); break;
    case 1: BinaryOp<R, A>(inst, std::function<R(A, A)>([&](A a, A b) { return f(Bits(a), Bits(b), 0); })); args = 2; break;
    case 2: UnaryVectorOp<R, A>(inst, std::function<R(A)>([&](A a) { return f(Bits(a), 0, 0); })); break;
    case 3: BinaryVectorOp<R, A>(inst, std::function<R(A, A)>([&](A a, A b) { return f(Bits(a), Bits(b), 0); })); args = 2; break;
    default: TernaryVectorOp<R, A>(inst, std::function<R(A, A, A)>([&](A a, A b, A x) { return f(Bits(a), Bits(b), Bits(x)); })); args = 3;
  }
  if (latency) {
    for (int i = 0; i < n; ++i) c.check(Bits(rd.data_buffer()->template Get<R>(i)) == 0, "early", "element %d changed before the latency", i);
    st.AdvanceDelayLines();
  }
  for (int i = 0; i < elems; ++i) {
    R w = f(Bits(v[0][i]), args < 2 ? 0 : Bits(v[1][i]), args < 3 ? 0 : Bits(v[2][i]));
    c.check(Bits(rd.data_buffer()->template Get<R>(i)) == Bits(w), "result", "element %d of %d, kind %d", i, n, kind);
  }
  c.ev("two_type_ops");
  c.nontrivial();
  inst->DecRef();
}
// the same-type forms, destination also a source
template <int N, typename T>
void Same(vh::Case& c) {
  auto& r = c.rng;
  State st;
  constexpr int n = N;
  VectorRegister<Store<T>, N> ra(&st, "ra"), rb(&st, "rb"), rc(&st, "rc");
  VectorRegister<Store<T>, N>* regs[] = {&ra, &rb, &rc};
  std::vector<T> v[3];
  for (int k = 0; k < 3; ++k) {
    auto* db = st.db_factory()->template Allocate<T>(n);
    for (int i = 0; i < n; ++i) { v[k].push_back(Val<T>(r)); db->template Set<T>(i, v[k][i]); }
    regs[k]->SetDataBuffer(db);
    db->DecRef();
  }
  int d = (int)r.below(3);
  Instruction* inst = new Instruction(0, &st);
  for (auto* g : regs) inst->AppendSource(g->CreateSourceOperand());
  inst->AppendDestination(regs[d]->CreateDestinationOperand(0));
  auto f = [](uint64_t a, uint64_t b, uint64_t x) { uint64_t h = vh::Mix(a * 3 + b * 5 + x * 7); if constexpr (std::is_floating_point_v<T>) return (T)(int32_t)h; else return (T)h; };
  c.mix(r.next());
  int kind = (int)r.below(9), elems = 1, args = 1;
  c.op("same kind %d n %d dest %d", kind, n, d);
  switch (kind) {
    case 0: UnaryOp<T>(inst, std::function<T(T)>([&](T a) { return f(Bits(a), 0, 0); })); break;
    case 1: BinaryOp<T>(inst, std::function<T(T, T)>([&](T a, T b) { return f(Bits(a), Bits(b), 0); })); args = 2; break;
    case 2: BinaryOp<T, T>(inst, std::function<T(T, T)>([&](T a, T b) { return f(Bits(a), Bits(b), 0); })); args = 2; break;
    case 3: UnaryVectorOp<T>(inst, std::function<T(T)>([&](T a) { return f(Bits(a), 0, 0); })); elems = n; break;
    case 4: BinaryVectorOp<T>(inst, std::function<T(T, T)>([&](T a, T b) { return f(Bits(a), Bits(b), 0); })); args = 2; elems = n; break;
    case 5: BinaryVectorOp<T, T>(inst, std::function<T(T, T)>([&](T a, T b) { return f(Bits(a), Bits(b), 0); })); args = 2; elems = n; break;
    case 6: TernaryVectorOp<T>(inst, std::function<T(T, T, T)>([&](T a, T b, T x) { return f(Bits(a), Bits(b), Bits(x)); })); args = 3; elems = n; break;
    case 7: TernaryVectorOp<T, T>(inst, std::function<T(T, T, T)>([&](T a, T b, T x) { return f(Bits(a), Bits(b), Bits(x)); })); args = 3; elems = n; break;
    default: TernaryVectorOp<T, T, T, T>(inst, std::function<T(T, T, T)>([&](T a, T b, T x) { return f(Bits(a), Bits(b), Bits(x)); })); args = 3; elems = n;
  }
  for (int i = 0; i < elems; ++i) {
    T w = f(Bits(v[0][i]), args < 2 ? 0 : Bits(v[1][i]), args < 3 ? 0 : Bits(v[2][i]));
    c.check(Bits(regs[d]->data_buffer()->template Get<T>(i)) == Bits(w), "inplace", "element %d of a destination that is also a source", i);
  }
  for (int k = 0; k < 3; ++k)
    if (k != d) for (int i = 0; i < n; ++i) c.check(Bits(regs[k]->data_buffer()->template Get<T>(i)) == Bits(v[k][i]), "source", "source register changed");
  c.ev("same_type_ops");
  c.nontrivial();
  inst->DecRef();
}
}  // namespace
VH_SCENARIO(C16, operations, 4000, 150000) {
  switch (c.rng.below(22)) {
    case 11: Ops<300, int8_t, uint64_t, int16_t, uint32_t>(c); break;
    case 12: Ops<5, uint32_t, int8_t, uint8_t, double>(c); break;
    case 13: Two<4, uint8_t, int64_t>(c); break;
    case 14: Two<3, int64_t, int8_t>(c); break;
    case 15: Two<9, uint16_t, uint32_t>(c); break;
    case 16: Two<6, float, uint8_t>(c); break;
    case 17: Two<2, int32_t, double>(c); break;
    case 18: Two<260, double, int16_t>(c); break;
    case 19: Same<257, int16_t>(c); break;
    case 20: Same<5, int8_t>(c); break;
    case 0: Ops<4, uint32_t, uint32_t, uint32_t, uint32_t>(c); break;
    case 1: Ops<8, uint64_t, uint8_t, int32_t, uint16_t>(c); break;
    case 2: Ops<1, uint8_t, int64_t, uint64_t, int8_t>(c); break;
    case 3: Ops<3, float, int16_t, float, double>(c); break;
    case 4: Ops<7, int64_t, double, uint16_t, int32_t>(c); break;
    case 5: Ops<2, double, double, float, uint64_t>(c); break;
    case 6: Ops<9, int16_t, uint16_t, int8_t, uint32_t>(c); break;
    case 7: Same<8, uint8_t>(c); break;
    case 8: Same<4, int32_t>(c); break;
    case 9: Same<3, uint64_t>(c); break;
    case 10: Same<1, double>(c); break;
    default: Same<6, float>(c);
  }
}

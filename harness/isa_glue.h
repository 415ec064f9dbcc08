// Text of the header the generated decoders include: semantic functions, operands and printing.
#ifndef VERIF_ISA_GLUE_H_
#define VERIF_ISA_GLUE_H_
static const char kGlue[] = R"GLUE(
#ifndef GLUE_H
#define GLUE_H
#include <algorithm>
#include <any>
#include <array>
#include <memory>
#include <string>
#include <vector>
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/container/flat_hash_map.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/operand_interface.h"
#include "mpact/sim/generic/resource_operand_interface.h"
namespace glue {
using namespace ::mpact::sim::generic;
inline int g_sem = 0;
inline uint64_t Hash(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ull;
  return h ^ h >> 32;
}
inline int64_t ValueOf(const std::string &n) {
  uint64_t h = Hash(n);
  switch (h % 4) {
    case 0: return (int64_t)(h >> 8 & 0x3ff);
    case 1: return -(int64_t)(h >> 8 & 0x3ff) - 1;
    case 2: return (int64_t)(h >> 8 & 0x7fffffff);
  }
  return (int64_t)h;
}
inline int ListLen(const std::string &n) { return (int)(Hash("l" + n) % 4); }
inline bool NullResource(const std::string &n) { return Hash("r" + n) % 5 == 0; }
inline int WildLatency(const std::string &n, int no) { return 1000 + (int)(Hash("w" + n) % 500) + no; }
inline std::vector<int> One(const std::vector<int> &v) { return v; }
inline std::string Lat(const std::vector<int> &v) {
  std::string s;
  for (int x : v) s += (s.empty() ? "" : "/") + std::to_string(x);
  return s;
}
struct Pred : PredicateOperandInterface {
  std::string tag, name;
  Pred(std::string t, std::string n) : tag(t), name(n) {}
  bool Value() override { return true; }
  std::string AsString() const override { return "[" + name + "]"; }
};
struct Src : SourceOperandInterface {
  std::string tag, name;
  int64_t v;
  Src(std::string t, std::string n) : tag(t), name(n), v(ValueOf(n)) {}
  bool AsBool(int) override { return v; }
  int8_t AsInt8(int) override { return v; }
  uint8_t AsUint8(int) override { return v; }
  int16_t AsInt16(int) override { return v; }
  uint16_t AsUint16(int) override { return v; }
  int32_t AsInt32(int) override { return v; }
  uint32_t AsUint32(int) override { return v; }
  int64_t AsInt64(int) override { return v; }
  uint64_t AsUint64(int) override { return v; }
  std::any GetObject() const override { return {}; }
  std::vector<int> shape() const override { return {1}; }
  std::string AsString() const override { return "<" + name + ">"; }
};
struct Dst : DestinationOperandInterface {
  std::string tag, name;
  Dst(std::string t, std::string n) : tag(t), name(n) {}
  DataBuffer *AllocateDataBuffer() override { return nullptr; }
  void InitializeDataBuffer(DataBuffer *) override {}
  DataBuffer *CopyDataBuffer() override { return nullptr; }
  int latency() const override { return 0; }
  std::any GetObject() const override { return {}; }
  std::vector<int> shape() const override { return {1}; }
  std::string AsString() const override { return "{" + name + "}"; }
};
struct ResOp : ResourceOperandInterface {
  std::vector<std::string> tags;
  bool IsFree() override { return true; }
  void Acquire() override {}
  std::string AsString() const override { return ""; }
};
inline void Put(std::string &out, int depth, const std::string &s) {
  out.append(depth * 2, ' ');
  out += s;
  out += '\n';
}
inline std::string Esc(const std::string &s) {
  std::string o;
  for (char c : s) o += c == '\n' ? std::string("\\n") : std::string(1, c);
  return o;
}
inline void Ops(std::string &out, int depth, Instruction *i) {
  g_sem = 0;
  i->Execute();
  Put(out, depth, "sem " + std::to_string(g_sem));
  if (i->Predicate()) Put(out, depth, "P " + static_cast<Pred *>(i->Predicate())->tag);
  for (int k = 0; k < i->SourcesSize(); ++k) Put(out, depth, i->Source(k) ? "S " + static_cast<Src *>(i->Source(k))->tag : "S null");
  for (int k = 0; k < i->DestinationsSize(); ++k) Put(out, depth, i->Destination(k) ? "D " + static_cast<Dst *>(i->Destination(k))->tag : "D null");
}
inline void Res(std::string &out, int depth, const char *what, std::vector<ResourceOperandInterface *> &v) {
  std::vector<std::string> t;
  for (auto *r : v) {
    if (!r) { t.push_back("null"); continue; }
    for (auto &x : static_cast<ResOp *>(r)->tags) t.push_back(x);
  }
  std::sort(t.begin(), t.end());
  for (auto &x : t) Put(out, depth, what + x);
}
}  // namespace glue
template <int N>
inline void SemFn(::mpact::sim::generic::Instruction *) { ::glue::g_sem = N; }
#define SEM(N) [](::mpact::sim::generic::Instruction *) { ::glue::g_sem = N; }
#endif
)GLUE";

// Follows the generated code of one description; @X@ are filled in.
static const char kDriver[] = R"DRV(
@NSOPEN@
namespace drv {
static const char *SlotName(SlotEnum s) {
  switch (s) {
@SLOTCASES@
    default: return "?";
  }
}
static int SlotIndex(SlotEnum s) {
  switch (s) {
@SLOTINDEX@
    default: return -1;
  }
}
static std::string At(SlotEnum s, int entry, OpcodeEnum op) {
  int o = (int)op;
  return std::string(SlotName(s)) + "/" + std::to_string(entry) + "/" + (o >= 0 && o < (int)OpcodeEnum::kPastMaxValue ? kOpcodeNames[o] : "?") + " ";
}
class Enc : public @ISA@EncodingBase {
 public:
  const int *ops;
  OpcodeEnum GetOpcode(SlotEnum s, int e) override { return static_cast<OpcodeEnum>(ops[SlotIndex(s) * 8 + e]); }
  PredicateOperandInterface *GetPredicate(@INST@ SlotEnum s, int e, OpcodeEnum o, PredOpEnum p) override {
    std::string n = kPredOpNames[(int)p];
    return new glue::Pred(At(s, e, o) + n, n);
  }
  SourceOperandInterface *GetSource(@INST@ SlotEnum s, int e, OpcodeEnum o, SourceOpEnum p, int no) override {
    std::string n = kSourceOpNames[(int)p];
    return new glue::Src(At(s, e, o) + n + " no=" + std::to_string(no), n);
  }
  std::vector<SourceOperandInterface *> GetSources(@INST@ SlotEnum s, int e, OpcodeEnum o, ListSourceOpEnum p, int no) override {
    std::string n = kListSourceOpNames[(int)p];
    std::vector<SourceOperandInterface *> v;
    for (int k = 0; k < glue::ListLen(n); ++k) v.push_back(new glue::Src(At(s, e, o) + "[" + n + "]" + std::to_string(k) + " no=" + std::to_string(no), n));
    return v;
  }
  DestinationOperandInterface *GetDestination(@INST@ SlotEnum s, int e, OpcodeEnum o, DestOpEnum p, int no, int latency) override {
    std::string n = kDestOpNames[(int)p];
    return new glue::Dst(At(s, e, o) + n + " lat=" + std::to_string(latency) + " no=" + std::to_string(no), n);
  }
  std::vector<DestinationOperandInterface *> GetDestinations(@INST@ SlotEnum s, int e, OpcodeEnum o, ListDestOpEnum p, int no, const std::vector<int> &latency) override {
    std::string n = kListDestOpNames[(int)p];
    std::vector<DestinationOperandInterface *> v;
    for (int k = 0; k < glue::ListLen(n); ++k) v.push_back(new glue::Dst(At(s, e, o) + "[" + n + "]" + std::to_string(k) + " lat=" + glue::Lat(latency) + " no=" + std::to_string(no), n));
    return v;
  }
  int GetLatency(@INST@ SlotEnum s, int e, OpcodeEnum o, DestOpEnum p, int no) override { return glue::WildLatency(At(s, e, o) + kDestOpNames[(int)p], 0); }
  std::vector<int> GetLatency(@INST@ SlotEnum s, int e, OpcodeEnum o, ListDestOpEnum p, int no) override {
    int l = glue::WildLatency(At(s, e, o) + kListDestOpNames[(int)p], 0);
    return {l, l + 1};
  }
  ResourceOperandInterface *GetSimpleResourceOperand(@INST@ SlotEnum s, int e, OpcodeEnum o, SimpleResourceVector &v, int end) override {
    auto r = std::make_unique<glue::ResOp>();  // instructions own these
    for (auto x : v)
      if (!glue::NullResource(kSimpleResourceNames[(int)x])) r->tags.push_back(At(s, e, o) + kSimpleResourceNames[(int)x] + " " + std::to_string(end));
    if (r->tags.empty()) return nullptr;
    return r.release();
  }
  ResourceOperandInterface *GetComplexResourceOperand(@INST@ SlotEnum s, int e, OpcodeEnum o, ComplexResourceEnum x, int begin, int end) override {
    std::string n = kComplexResourceNames[(int)x];
    if (glue::NullResource(n)) return nullptr;
    auto *r = new glue::ResOp;
    r->tags.push_back(At(s, e, o) + n + " " + std::to_string(begin) + ".." + std::to_string(end));
    return r;
  }
  std::vector<ResourceOperandInterface *> GetComplexResourceOperands(@INST@ SlotEnum s, int e, OpcodeEnum o, ListComplexResourceEnum x, int begin, int end) override {
    std::string n = kListComplexResourceNames[(int)x];
    std::vector<ResourceOperandInterface *> v;
    for (int k = 0; k < glue::ListLen(n); ++k) {
      auto *r = new glue::ResOp;
      r->tags.push_back(At(s, e, o) + "[" + n + "]" + std::to_string(k) + " " + std::to_string(begin) + ".." + std::to_string(end));
      v.push_back(r);
    }
    return v;
  }
};
struct Factory : @ISA@InstructionSetFactory {
@FACTORY@
};
static void Attrs(std::string &out, Instruction *i, int slot) {
  auto a = i->Attributes();
  auto one = [&](const char *n, int k) { glue::Put(out, 0, std::string("T ") + n + "=" + (k < (int)a.size() ? std::to_string(a[k]) : "missing")); };
  switch (slot) {
@ATTRS@
  }
}
static std::string text;
static const char *Show(Instruction *top, const std::vector<int> &slots) {
  text.clear();
  if (!top) return "null";
  size_t k = 0;
  for (Instruction *i = top; i; i = i->next(), ++k) {
    int o = i->opcode();
    glue::Put(text, 0, absl::StrCat("I ", o >= 0 && o < (int)OpcodeEnum::kPastMaxValue ? kOpcodeNames[o] : "?", " address ", i->address(), " size ", i->size()));
    glue::Put(text, 0, "disasm " + glue::Esc(i->AsString()));
    glue::Ops(text, 0, i);
    glue::Res(text, 0, "use ", i->ResourceHold());
    glue::Res(text, 0, "acquire ", i->ResourceAcquire());
    if (k < slots.size()) Attrs(text, i, slots[k]);
    int depth = 1;
    for (Instruction *c = i->child(); c; c = c->child(), ++depth) {
      glue::Put(text, depth, absl::StrCat("child address ", c->address(), c->next() ? " with next" : ""));
      glue::Ops(text, depth, c);
    }
  }
  top->DecRef();
  return text.c_str();
}
}  // namespace drv
@NSCLOSE@
extern "C" const char *@ID@_slot(int slot, int entry, uint64_t address, const int *ops) {
  using namespace @NS@;
  drv::Enc enc;
  enc.ops = ops;
  drv::Factory f;
  switch (slot) {
@SLOTDECODE@
  }
  return "";
}
extern "C" const char *@ID@_isa(uint64_t address, const int *ops) {
  using namespace @NS@;
  drv::Enc enc;
  enc.ops = ops;
  drv::Factory f;
  @ISA@InstructionSet s(nullptr, &f);
  return drv::Show(s.Decode(address, &enc), {@USES@});
}
extern "C" int @ID@_names(int kind, const char ***names) {
  using namespace @NS@;
  switch (kind) {
#define K(n, what) case n: *names = (const char **)k##what##Names; return (int)what##Enum::kPastMaxValue;
    K(0, Opcode) K(1, PredOp) K(2, SourceOp) K(3, ListSourceOp) K(4, DestOp) K(5, ListDestOp)
    K(6, SimpleResource) K(7, ComplexResource) K(8, ListComplexResource)
#undef K
  }
  return -1;
}
)DRV";
#endif

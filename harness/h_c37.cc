// C37: decoders generated from descriptions of protobuf encoded instructions; value sets of constraints.
#include "pf_desc.h"

VH_SCENARIO(C37, decoders, 40, 900) {
  auto& r = c.rng;
  string dir = gen::Dir(c);
  int nd = 3;
  vector<std::unique_ptr<DescT>> ds;
  string drv = "#include <cstdint>\n#include <functional>\n", sources = "driver.cc";
  for (int i = 0; i < nd; ++i) {
    ds.emplace_back(new DescT);
    DescT& d = *ds.back();
    d.id = "c" + to_string(c.index) + "d" + to_string(i);
    d.package = r.coin() ? "pk" + d.id : "pk" + d.id + ".sub_p";
    Maker{r, d}.Make();
    // Two groups without any constraint in common cases are refused; see Split.
    gen::Put(dir + "/" + d.id + ".proto", d.proto);
    gen::Put(dir + "/" + d.id + ".proto_fmt", d.text);
    if (!d.include.empty()) gen::Put(dir + "/" + d.id + "_inc.proto_fmt", d.include);
    c.text("-- " + d.id + ".proto\n" + d.proto + "-- " + d.id + ".proto_fmt\n" + d.text + (d.include.empty() ? "" : "-- include\n" + d.include));
    string en = "#ifndef E_" + d.id + "\n#define E_" + d.id + "\nnamespace " + d.id + "_isa {\nenum class Opc { kNone = 0,\n";
    for (auto& [n, v] : d.opnum) en += "  k" + bin::Pascal(n) + " = " + to_string(v) + ",\n";
    gen::Put(dir + "/" + d.id + "_enums.h", en + "};\n}\n#endif\n");
    {
      pf::ProtoFormatVisitor v;
      auto st = v.Process({dir + "/" + d.id + ".proto_fmt"}, "Dec" + d.id, d.id, {dir}, {dir}, {d.id + ".proto"}, dir);
      c.check(st.ok(), "valid description refused", "%s: %s", d.id.c_str(), string(st.message()).c_str());
    }
    c.ev("descriptions");
    if (!d.include.empty()) c.ev("included");
    string cmd = "cd '" + dir + "' && protoc --cpp_out=. " + d.id + ".proto > protoc.log 2>&1";
    if (system(cmd.c_str()) != 0) {
      fprintf(stderr, "protoc failed: %s\n", gen::Get(dir + "/protoc.log").c_str());
      _exit(64);
    }
    for (string x : {"schemas", "file_default_instances"}) drv += "#define " + x + " " + x + d.id + "\n";
    drv += "#include \"" + d.id + ".pb.cc\"\n#undef schemas\n#undef file_default_instances\n";
  }
  for (auto& dp : ds) {
    DescT& d = *dp;
    drv += "#include \"" + d.id + "_proto_decoder.cc\"\n";
    string ns = d.text + d.include;
    ns = d.id + "_ns" + (ns.find(d.id + "_ns::inner") != string::npos ? "::inner" : "");
    drv += "extern \"C\" int " + d.id + "_dec(int g, const char* p, int n, int64_t* out, int sentinel) {\n  " + ns + "::Dec" + d.id + "Decoder dec;\n  int op = -5;\n";
    for (auto& s : d.setter_names) drv += "  dec.Set" + bin::Pascal(s) + "(sentinel);\n";
    drv += "  switch (g) {\n";
    for (size_t g = 0; g < d.groups.size(); ++g) {
      string t = d.groups[g].root->full, q;
      for (char ch : t) q += ch == '.' ? string("::") : string(1, ch);
      drv += "    case " + to_string(g) + ": { ::" + q + " m; if (!m.ParseFromArray(p, n)) return -6; op = (int)dec.Decode" + bin::Pascal(d.groups[g].name) + "(m); break; }\n";
    }
    drv += "  }\n";
    for (size_t i = 0; i < d.setter_names.size(); ++i) drv += "  out[" + to_string(i) + "] = (int64_t)dec.Get" + bin::Pascal(d.setter_names[i]) + "();\n";
    drv += "  return op;\n}\n";
  }
  gen::Put(dir + "/driver.cc", drv);
  void* h = gen::Load(c, dir, sources);
  for (auto& dp : ds) {
    DescT& d = *dp;
    auto dec = gen::Sym<int (*)(int, const char*, int, int64_t*, int)>(c, h, (d.id + "_dec").c_str());
    map<int, string> opname{{0, "none"}};
    for (auto& [n, v] : d.opnum) opname[v] = n;
    for (size_t gi = 0; gi < d.groups.size(); ++gi) {
      GroupT& g = d.groups[gi];
      if (!g.children.empty()) c.ev("merged_groups");
      vector<FieldT*> fields;
      Maker{r, d}.All(g.root, fields);
      vector<int64_t> pool{0, 1, 2, -1, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN, UINT32_MAX};
      for (auto& x : g.insts)
        for (auto& q : x.cons)
          for (int k = -1; k <= 1; ++k) pool.push_back((int64_t)((uint64_t)q.v + k));
      c.nontrivial();
      int nm = c.thorough ? 1500 : 700;
      for (int i = 0; i < nm; ++i) {
        Value v;
        auto any = [&](FieldT* f) { SetF(v, f, r.chance(3, 4) ? r.pick(pool) : r.next()); };
        for (int k = (int)r.below(fields.size() + 1); k > 0; --k) any(r.pick(fields));
        if (r.chance(7, 8)) {
          auto& x = r.pick(g.insts);
          for (auto& q : x.cons) {
            if (q.op.empty()) {
              if (!Has(v, q.f)) SetF(v, q.f, r.pick(pool));
              continue;
            }
            for (int t = 0; t < 40 && !HoldsC(v, q); ++t) SetF(v, q.f, t < 3 ? q.v + t % 3 - 1 : r.pick(pool));
          }
          if (r.chance(1, 3)) any(r.pick(fields));
        }
        const InstT* want = nullptr;
        for (auto& x : g.insts) {
          bool ok = true;
          for (auto& q : x.cons) ok &= HoldsC(v, q);
          if (!ok) continue;
          if (want) {
            fprintf(stderr, "ambiguous description %s: %s and %s\n", d.id.c_str(), want->name.c_str(), x.name.c_str());
            _exit(64);
          }
          want = &x;
        }
        string w = Wire(v);
        for (int sentinel = 0; sentinel < 2; ++sentinel) {
          vector<int64_t> out(d.setter_names.size() + 1, 0);
          int op = dec((int)gi, w.data(), (int)w.size(), out.data(), sentinel);
          int exp = want ? d.opnum[want->name] : 0;
          c.check(op == exp, "wrong instruction", "%s %s message %s: got %s, expected %s", d.id.c_str(), g.name.c_str(), ShowV(v).c_str(), opname.count(op) ? opname[op].c_str() : to_string(op).c_str(), opname[exp].c_str());
          for (size_t k = 0; k < d.setter_names.size(); ++k) {
            int64_t e = sentinel;
            if (want && want->setters.count(d.setter_names[k])) {
              auto& s = want->setters.at(d.setter_names[k]);
              if (s.has_def && !OneofsHold(v, s.f)) {
                // Whether the default is used or nothing is set is left open.
                c.ev("default_of_other_member");
                if (out[k] == s.def) e = s.def;
              } else if (OneofsHold(v, s.f)) {
                e = s.has_def && !Has(v, s.f) ? s.def : Get(v, s.f);
                c.ev("set");
                if (s.has_def) c.ev(Has(v, s.f) ? "present" : "defaulted");
                if (s.has_def && Chain(s.f)[0]->oneof >= 0) c.ev("default_in_oneof");
              } else {
                c.ev("not_set");
              }
            }
            c.check(out[k] == e, "wrong value set", "%s %s message %s decoded as %s: %s is %ld, expected %ld", d.id.c_str(), g.name.c_str(), ShowV(v).c_str(), opname[op].c_str(), d.setter_names[k].c_str(), out[k], e);
          }
        }
        c.ev(want ? "decoded" : "undecodable");
      }
    }
  }
  gen::Drop(dir);
}

namespace {
template <typename T>
struct Iv {
  T lo, hi;
  bool lc, hc;
  bool In(T v) const { return (lc ? v >= lo : v > lo) && (hc ? v <= hi : v < hi); }
  bool Empty() const { return lo > hi || (lo == hi && !(lc && hc)); }
};
template <typename T>
void Sets(vh::Case& c) {
  auto& r = c.rng;
  using L = std::numeric_limits<T>;
  const bool fp = std::is_floating_point_v<T>;
  T lowest = fp ? (T)-INFINITY : L::min(), highest = fp ? (T)INFINITY : L::max();
  vector<T> pts;
  T mid = (T)r.val();
  if (fp) mid = (T)(int32_t)r.next() / 8;
  for (int k = -2; k <= 2; ++k) {
    if (std::is_same_v<T, bool>) pts.push_back(k & 1);
    else if (fp) pts.push_back(mid + (T)k / 2);
    else pts.push_back((T)((uint64_t)mid + k));
  }
  pts.push_back(lowest);
  pts.push_back(highest);
  pts.push_back(T(0));
  if (!fp && !std::is_same_v<T, bool>) {
    pts.push_back((T)((uint64_t)lowest + 1));
    pts.push_back((T)((uint64_t)highest - 1));
  }
  vector<T> sample = pts;
  for (int k = 0; k < 10; ++k) sample.push_back(fp ? (T)(int32_t)r.next() : (T)r.next());
  struct S {
    std::unique_ptr<pf::ProtoConstraintValueSet> s;
    vector<Iv<T>> m;
  };
  auto show = [](const vector<Iv<T>>& m) {
    string o;
    for (auto& i : m) o += (i.lc ? "[" : "(") + to_string(i.lo) + "," + to_string(i.hi) + (i.hc ? "]" : ")") + " ";
    return o;
  };
  auto make = [&] {
    S x;
    T v = pts[r.below(pts.size())];
    int op = (int)r.below(7);
    auto* e = new pf::ProtoConstraintValueExpression(v);
    pf::ConstraintType t = (pf::ConstraintType)op;
    if (op < 6) {
      pf::ProtoConstraint k(nullptr, nullptr, t, e, 0, nullptr);
      x.s.reset(new pf::ProtoConstraintValueSet(k));
      switch (op) {
        case 0: x.m = {{v, v, true, true}}; break;
        case 1: x.m = {{lowest, v, true, false}, {v, highest, false, true}}; break;
        case 2: x.m = {{lowest, v, true, false}}; break;
        case 3: x.m = {{lowest, v, true, true}}; break;
        case 4: x.m = {{v, highest, false, true}}; break;
        case 5: x.m = {{v, highest, true, true}}; break;
      }
      delete e;
    } else {
      T w = pts[r.below(pts.size())];
      Iv<T> i{std::min(v, w), std::max(v, w), r.coin(), r.coin()};
      pf::ProtoConstraintValueExpression lo(i.lo), hi(i.hi);
      x.s.reset(new pf::ProtoConstraintValueSet(&lo, i.lc, &hi, i.hc));
      x.m = {i};
      delete e;
    }
    c.op("set %s", show(x.m).c_str());
    return x;
  };
  auto in = [](const pf::ProtoConstraintValueSet& s, T v) {
    for (auto& q : s.subranges()) {
      if (!q.min || !q.max) continue;
      T lo = q.min->template GetValueAs<T>(), hi = q.max->template GetValueAs<T>();
      if ((q.min_included ? v >= lo : v > lo) && (q.max_included ? v <= hi : v < hi)) return true;
    }
    return false;
  };
  auto agree = [&](const S& x, const char* what) {
    for (T v : sample) {
      bool want = false;
      for (auto& i : x.m) want |= i.In(v);
      c.check(in(*x.s, v) == want, "wrong value set", "after %s, %s is %sin %s", what, to_string(v).c_str(), want ? "not " : "", show(x.m).c_str());
    }
    c.check(!x.s->IsEmpty() || std::all_of(x.m.begin(), x.m.end(), [](auto& i) { return i.Empty(); }), "set taken for empty", "after %s: %s", what, show(x.m).c_str());
  };
  S a = make();
  agree(a, "construction");
  for (int k = (int)r.range(1, 5); k > 0; --k) {
    S b = make();
    agree(b, "construction");
    if (r.chance(1, 3)) {
      c.op("union");
      c.check(a.s->UnionWith(*b.s).ok(), "union refused", "of equal types");
      a.m.insert(a.m.end(), b.m.begin(), b.m.end());
      agree(a, "union");
      c.ev("unions");
    } else {
      c.op("intersection");
      pf::ProtoConstraintValueSet copy(*a.s);
      c.check(copy.IntersectWith(*b.s).ok(), "intersection refused", "of equal types");
      agree(a, "intersection of a copy");
      bool was_empty = a.s->IsEmpty() || b.s->IsEmpty();
      a.s.reset(new pf::ProtoConstraintValueSet(copy));
      vector<Iv<T>> m;
      for (auto& x : a.m)
        for (auto& y : b.m) {
          Iv<T> i;
          i.lo = std::max(x.lo, y.lo);
          i.hi = std::min(x.hi, y.hi);
          i.lc = (x.lo < i.lo || x.lc) && (y.lo < i.lo || y.lc);
          i.hc = (x.hi > i.hi || x.hc) && (y.hi > i.hi || y.hc);
          if (!i.Empty()) m.push_back(i);
        }
      a.m = m;
      agree(a, "intersection");
      if (m.empty()) c.check(a.s->IsEmpty(), "emptiness of an intersection", "not empty");
      (void)was_empty;
      c.ev(m.empty() ? "disjoint" : "overlapping");
    }
    c.nontrivial();
  }
  // Sets of different types do not combine.
  pf::ProtoConstraintValueExpression other(string("x"));
  pf::ProtoConstraintValueExpression one((T)1);
  pf::ProtoConstraint k(nullptr, nullptr, pf::ConstraintType::kEq, &other, 0, nullptr);
  pf::ProtoConstraintValueSet strings(k), ones(&one, true, &one, true);
  c.check(!ones.IntersectWith(strings).ok(), "intersection of different types", "accepted");
}
}  // namespace

VH_SCENARIO(C37, values, 4000, 200000) {
  switch (c.rng.below(7)) {
    case 0: return Sets<int32_t>(c);
    case 1: return Sets<int64_t>(c);
    case 2: return Sets<uint32_t>(c);
    case 3: return Sets<uint64_t>(c);
    case 4: return Sets<float>(c);
    case 5: return Sets<double>(c);
    default: return Sets<bool>(c);
  }
}

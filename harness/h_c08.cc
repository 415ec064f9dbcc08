// C08: template expressions - instantiation and constant folding are exact integer
// arithmetic; errors are reported, nothing leaks, the source tree is unchanged.
#include <limits>
#include <memory>
#include <optional>

#include "mpact/sim/decoder/template_expression.h"
#include "vh.h"

using namespace mpact::sim::machine_description::instruction_set;

namespace {
using Opt = std::optional<int64_t>;  // nullopt: error
// Reference tree.
struct Node {
  char k;  // c const, p param, n neg, + - * /, f function, s slot constant
  int v = 0;
  std::vector<std::shared_ptr<Node>> ch;
  int fn = 0;
};
using NP = std::shared_ptr<Node>;
struct Gen {
  vh::Case& c;
  int nparams;
  std::vector<std::unique_ptr<TemplateFormal>>& formals;
  bool allow_param;
  std::string txt;
  NP gen(int depth) {
    auto n = std::make_shared<Node>();
    auto& r = c.rng;
    int k = depth <= 0 ? (int)r.below(2) : (int)r.below(10);
    if (k == 0 || (k == 1 && (!allow_param || nparams == 0))) {
      n->k = 'c';
      switch (r.below(8)) {
        case 0: n->v = std::numeric_limits<int>::min(); break;
        case 1: n->v = std::numeric_limits<int>::max(); break;
        case 2: n->v = 0; break;
        case 3: n->v = -1; break;
        case 4: n->v = (int)r.next(); break;
        default: n->v = (int)r.range(-20, 20); break;
      }
    } else if (k == 1) {
      n->k = 'p';
      n->v = (int)r.below(nparams);
    } else if (k == 2) {
      n->k = 'n';
      n->ch.push_back(gen(depth - 1));
    } else if (k == 3) {
      n->k = 's';
      n->ch.push_back(gen(depth - 1));
    } else if (k == 4) {
      n->k = 'f';
      n->fn = (int)r.below(4);
      int na = (int)r.range(0, 3);
      for (int i = 0; i < na; ++i) n->ch.push_back(gen(depth - 1));
    } else {
      n->k = "+-*/*/"[r.below(6)];
      n->ch.push_back(gen(depth - 1));
      n->ch.push_back(gen(depth - 1));
    }
    return n;
  }
};
std::string Show(const NP& n) {
  switch (n->k) {
    case 'c': return std::to_string(n->v);
    case 'p': return "$" + std::to_string(n->v);
    case 'n': return "-(" + Show(n->ch[0]) + ")";
    case 's': return "slot(" + Show(n->ch[0]) + ")";
    case 'f': {
      std::string s = "f" + std::to_string(n->fn) + "(";
      for (auto& x : n->ch) s += Show(x) + ",";
      return s + ")";
    }
    default: return "(" + Show(n->ch[0]) + n->k + Show(n->ch[1]) + ")";
  }
}
// Functions of known meaning: 0: first argument or error if none; 1: sum; 2: max or error; 3: always an error.
Opt ApplyFn(int fn, const std::vector<Opt>& a) {
  for (auto& x : a)
    if (!x) return std::nullopt;
  if (fn == 3 || (a.empty() && fn != 1)) return std::nullopt;
  if (fn == 0) return a[0];
  int64_t s = fn == 1 ? 0 : *a[0];
  for (auto& x : a) s = fn == 1 ? s + *x : std::max(s, *x);
  if (s < std::numeric_limits<int>::min() || s > std::numeric_limits<int>::max()) return std::nullopt;
  return s;
}
absl::StatusOr<TemplateValue> FnEval(int fn, TemplateInstantiationArgs* args) {
  std::vector<Opt> a;
  for (auto* e : *args) {
    auto v = e->GetValue();
    if (!v.ok()) return v.status();
    a.push_back(std::get<int>(v.value()));
  }
  auto r = ApplyFn(fn, a);
  if (!r) return absl::InvalidArgumentError("function failed");
  return TemplateValue((int)*r);
}
TemplateExpression* Build(const NP& n, std::vector<std::unique_ptr<TemplateFormal>>& formals) {
  switch (n->k) {
    case 'c': return new TemplateConstant(n->v);
    case 'p': return new TemplateParam(formals[n->v].get());
    case 'n': return new TemplateNegate(Build(n->ch[0], formals));
    case 's': return new SlotConstant(Build(n->ch[0], formals));
    case 'f': {
      auto* a = new TemplateInstantiationArgs;
      for (auto& x : n->ch) a->push_back(Build(x, formals));
      int fn = n->fn;
      return new TemplateFunction([fn](TemplateInstantiationArgs* args) { return FnEval(fn, args); }, a);
    }
    case '+': return new TemplateAdd(Build(n->ch[0], formals), Build(n->ch[1], formals));
    case '-': return new TemplateSubtract(Build(n->ch[0], formals), Build(n->ch[1], formals));
    case '*': return new TemplateMultiply(Build(n->ch[0], formals), Build(n->ch[1], formals));
    default: return new TemplateDivide(Build(n->ch[0], formals), Build(n->ch[1], formals));
  }
}
bool HasParam(const NP& n) {
  if (n->k == 'p') return true;
  for (auto& x : n->ch)
    if (HasParam(x)) return true;
  return false;
}
bool HasFn(const NP& n) {
  if (n->k == 'f') return true;
  for (auto& x : n->ch)
    if (HasFn(x)) return true;
  return false;
}
// Mathematical value in the environment (env[i] nullopt: argument has no value).  The
// outcome "overflow" (the exact value of some subexpression is not an int) is reported
// separately: it must be an error, never a number.
struct Val {
  Opt v;
  bool overflow = false;
};
Val Eval(const NP& n, const std::vector<Val>* env) {
  auto fit = [](Val x) {
    if (x.v && (*x.v < std::numeric_limits<int>::min() || *x.v > std::numeric_limits<int>::max())) return Val{std::nullopt, true};
    return x;
  };
  switch (n->k) {
    case 'c': return {n->v};
    case 'p': return env && n->v < (int)env->size() ? (*env)[n->v] : Val{};
    case 'n': {
      auto a = Eval(n->ch[0], env);
      if (!a.v) return a;
      return fit({-*a.v});
    }
    case 's': return Eval(n->ch[0], env);
    case 'f': {
      std::vector<Opt> a;
      bool of = false;
      for (auto& x : n->ch) {
        auto e = Eval(x, env);
        of |= e.overflow;
        a.push_back(e.v);
      }
      return {ApplyFn(n->fn, a), of};
    }
    default: {
      auto a = Eval(n->ch[0], env), b = Eval(n->ch[1], env);
      if (!a.v || !b.v) return {std::nullopt, a.overflow || b.overflow};
      if (n->k == '+') return fit({*a.v + *b.v});
      if (n->k == '-') return fit({*a.v - *b.v});
      if (n->k == '*') return fit({*a.v * *b.v});
      if (*b.v == 0) return {};
      return fit({*a.v / *b.v});
    }
  }
}
void Expect(vh::Case& c, const char* what, const absl::StatusOr<TemplateValue>& got, const Val& want, const std::string& txt) {
  if (want.v) {
    c.check(got.ok(), "value", "%s of %s is an error, expected %ld", what, txt.c_str(), *want.v);
    c.check(std::get<int>(got.value()) == *want.v, "value", "%s of %s is %d, expected %ld", what, txt.c_str(), std::get<int>(got.value()), *want.v);
    c.ev("values");
  } else {
    c.check(!got.ok(), "error", "%s of %s is %d, expected an error", what, txt.c_str(), got.ok() ? std::get<int>(got.value()) : 0);
    c.ev(want.overflow ? "overflow_errors" : "errors");
  }
}
}  // namespace

VH_SCENARIO(C08, evaluate, 12000, 500000) {
  auto& r = c.rng;
  int np = (int)r.below(4);
  std::vector<std::unique_ptr<TemplateFormal>> formals;
  for (int i = 0; i < np; ++i) formals.emplace_back(new TemplateFormal("p" + std::to_string(i), i));
  for (int i = 0; i < np; ++i) {
    c.check(formals[i]->name() == "p" + std::to_string(i) && (int)formals[i]->position() == i, "formal", "formal");
  }
  Gen g{c, np, formals, true};
  NP t = g.gen((int)r.range(0, 4));
  std::string txt = Show(t);
  c.op("expression %s", txt.c_str());
  std::unique_ptr<TemplateExpression> e(Build(t, formals));
  bool has_param = HasParam(t);
  c.check(e->IsConstant() == !has_param, "isconstant", "IsConstant %d for %s", e->IsConstant(), txt.c_str());
  if (!has_param) {
    Expect(c, "value", e->GetValue(), Eval(t, nullptr), txt);
  } else {
    auto v = e->GetValue();
    // With unbound parameters there is no value.
    c.check(!v.ok(), "unbound", "expression with unbound parameters has value");
  }
  // Without arguments: still correct, parameters stay.
  // arguments: constants, expressions of constants, or expressions over outer parameters
  std::vector<std::unique_ptr<TemplateFormal>> outer;
  int nouter = (int)r.below(3);
  for (int i = 0; i < nouter; ++i) outer.emplace_back(new TemplateFormal("o" + std::to_string(i), i));
  TemplateInstantiationArgs args;
  std::vector<NP> argt;
  int nargs = r.chance(1, 12) ? (int)r.below(np + 1) : np;
  for (int i = 0; i < nargs; ++i) {
    Gen ga{c, nouter, outer, r.chance(1, 3)};
    argt.push_back(ga.gen((int)r.below(3)));
    c.op("arg %d: %s", i, Show(argt.back()).c_str());
    args.push_back(Build(argt.back(), outer));
  }
  bool open_args = false;  // an argument mentions an outer parameter
  for (auto& a : argt) open_args |= HasParam(a);
  // Second level values for the outer parameters.
  std::vector<Val> outer_env;
  TemplateInstantiationArgs outer_args;
  for (int i = 0; i < nouter; ++i) {
    int v = r.chance(1, 4) ? 0 : (int)r.range(-50, 50);
    outer_env.push_back({v});
    outer_args.push_back(new TemplateConstant(v));
  }
  std::vector<Val> env;
  for (auto& a : argt) env.push_back(Eval(a, &outer_env));

  std::unique_ptr<TemplateExpression> copy(e->DeepCopy());
  for (int round = 0; round < 2; ++round) {
    // The expression, and a deep copy of it once the original is gone, instantiate alike.
    TemplateExpression* x = round ? copy.get() : e.get();
    auto res = x->Evaluate(&args);
    Val want = Eval(t, &env);
    if (!res.ok()) {
      // An error may surface as soon as it is known; it must be a real one.
      c.check(!want.v, "spurious-error", "instantiating %s failed (%s), expected %ld", txt.c_str(), std::string(res.status().message()).c_str(), want.v ? *want.v : 0);
      c.ev(want.overflow ? "overflow_errors" : "errors");
    } else {
      std::unique_ptr<TemplateExpression> y(res.value());
      if (!open_args) {
        c.check(y->IsConstant(), "not-constant", "%s with constant arguments is not constant", txt.c_str());
        Expect(c, "instantiated value", y->GetValue(), want, txt);
        if (has_param) c.ev("instantiations");
      } else {
        // instantiate once more, with the surrounding template's arguments
        auto res2 = y->Evaluate(&outer_args);
        if (res2.ok()) {
          std::unique_ptr<TemplateExpression> z(res2.value());
          Expect(c, "twice instantiated value", z->GetValue(), want, txt);
          c.ev("nested_instantiations");
        } else {
          c.check(!want.v, "spurious-error", "second instantiation of %s failed, expected %ld", txt.c_str(), want.v ? *want.v : 0);
          c.ev("errors");
        }
      }
    }
    // Evaluating with no arguments keeps the parameters and the value.
    auto res3 = x->Evaluate(nullptr);
    if (res3.ok()) {
      std::unique_ptr<TemplateExpression> z(res3.value());
      c.check(z->IsConstant() == !has_param, "isconstant", "Evaluate(nullptr) changed IsConstant of %s", txt.c_str());
      if (!has_param) Expect(c, "folded value", z->GetValue(), Eval(t, nullptr), txt);
      else {
        auto res4 = z->Evaluate(&args);
        if (res4.ok()) {
          std::unique_ptr<TemplateExpression> q(res4.value());
          if (!open_args) Expect(c, "folded then instantiated value", q->GetValue(), want, txt);
        } else {
          c.check(!want.v, "spurious-error", "folded then instantiated: error, expected %ld", want.v ? *want.v : 0);
        }
      }
    }
    if (round == 0) e.reset();
  }
  for (auto* a : args) delete a;
  for (auto* a : outer_args) delete a;
  if (t->ch.size() > 0) c.nontrivial();
  c.seen(vh::HashStr(txt.c_str()));
}

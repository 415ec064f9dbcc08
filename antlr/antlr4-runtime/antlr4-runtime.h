// A small stand-in for the ANTLR 4 C++ runtime: just what mpact-sim's decoder
// generators use. The parsers themselves are produced by antlr_gen.py from the
// repository's own .g4 files. Deliberate differences from the real runtime:
//   * a choice is made by LL(1) filtering followed by ordered backtracking;
//   * after the first syntax error (one is reported) there is no recovery and
//     the returned tree is the root alone.
#ifndef VERIF_ANTLR4_RUNTIME_H_
#define VERIF_ANTLR4_RUNTIME_H_
#include <cstddef>
#include <cstdint>
#include <deque>
#include <exception>
#include <iostream>
#include <istream>
#include <iterator>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace antlrcpp { class BitSet {}; }
namespace antlr4 {
namespace dfa { class DFA {}; }
namespace atn { class ATNConfigSet {}; }

class Recognizer { public: virtual ~Recognizer() = default; };

class Token {
 public:
  static constexpr size_t EOF_TYPE = static_cast<size_t>(-1);
  size_t getLine() const { return line; }
  size_t getCharPositionInLine() const { return col; }
  std::string getText() const { return text; }
  size_t getType() const { return type; }
  size_t getTokenIndex() const { return index; }
  size_t type = 0, line = 0, col = 0, index = 0;
  std::string text;
};

class Parser;
class BaseErrorListener {
 public:
  virtual ~BaseErrorListener() = default;
  virtual void syntaxError(Recognizer*, Token*, size_t, size_t,
                           const std::string&, std::exception_ptr) {}
  virtual void reportAmbiguity(Parser*, const dfa::DFA&, size_t, size_t, bool,
                               const antlrcpp::BitSet&, atn::ATNConfigSet*) {}
  virtual void reportAttemptingFullContext(Parser*, const dfa::DFA&, size_t,
                                           size_t, const antlrcpp::BitSet&,
                                           atn::ATNConfigSet*) {}
  virtual void reportContextSensitivity(Parser*, const dfa::DFA&, size_t,
                                        size_t, size_t, atn::ATNConfigSet*) {}
};
using ANTLRErrorListener = BaseErrorListener;

class ANTLRInputStream {
 public:
  ANTLRInputStream() = default;
  explicit ANTLRInputStream(const std::string& s) : data(s) {}
  void load(std::istream& in, bool = false) {
    data.assign(std::istreambuf_iterator<char>(in), {});
  }
  void load(const std::string& s, bool = false) { data = s; }
  std::string data;
};

// Table-driven longest-match lexer.
class Lexer : public Recognizer {
 public:
  struct Tables {
    const int16_t (*next)[256];
    const int16_t* accept;   // token type, 0 for none
    const uint8_t* hidden;   // by token type
  };
  Lexer(ANTLRInputStream* in, Tables t) : in_(in), t_(t) {}
  void removeErrorListeners() {}
  void addErrorListener(BaseErrorListener*) {}
  std::deque<Token> tokenize() {
    std::deque<Token> out;
    const std::string& s = in_->data;
    size_t pos = 0, line = 1, col = 0;
    auto adv = [&](size_t n) {
      for (; n; --n, ++pos) {
        if (s[pos] == '\n') { ++line; col = 0; } else { ++col; }
      }
    };
    while (pos < s.size()) {
      int st = 0, best = 0;
      size_t len = 0;
      for (size_t i = pos; i < s.size(); ++i) {
        st = t_.next[st][static_cast<uint8_t>(s[i])];
        if (st < 0) break;
        if (t_.accept[st]) { best = t_.accept[st]; len = i - pos + 1; }
      }
      if (!best) {
        std::cerr << "line " << line << ":" << col
                  << " token recognition error at: '" << s[pos] << "'\n";
        adv(1);
        continue;
      }
      if (!t_.hidden[best]) {
        Token k;
        k.type = best; k.line = line; k.col = col; k.index = out.size();
        k.text = s.substr(pos, len);
        out.push_back(std::move(k));
      }
      adv(len);
    }
    Token e;
    e.type = Token::EOF_TYPE; e.line = line; e.col = col; e.text = "<EOF>";
    e.index = out.size();
    out.push_back(e);
    return out;
  }
 private:
  ANTLRInputStream* in_;
  Tables t_;
};

class CommonTokenStream {
 public:
  explicit CommonTokenStream(Lexer* l) : toks(l->tokenize()) {}
  void fill() {}
  std::deque<Token> toks;
};

namespace tree {
class ParseTree {
 public:
  virtual ~ParseTree() = default;
  virtual std::string getText() = 0;
  ParseTree* parent = nullptr;
  std::vector<ParseTree*> children;
};
class TerminalNode : public ParseTree {
 public:
  explicit TerminalNode(Token* t) : tok(t) {}
  Token* getSymbol() const { return tok; }
  std::string getText() override { return tok->getText(); }
  Token* tok;
};
}  // namespace tree

class ParserRuleContext : public tree::ParseTree {
 public:
  explicit ParserRuleContext(int r) : rule(r) {}
  std::string getText() override {
    std::string s;
    for (auto* c : children) s += c->getText();
    return s;
  }
  size_t getRuleIndex() const { return rule; }
  Token* getStart() const { return start; }
  Token* getStop() const { return stop; }
  Token* start = nullptr;
  Token* stop = nullptr;
  const int rule;
  std::exception_ptr exception;
  struct Val { Token* t = nullptr; ParserRuleContext* c = nullptr; };
  virtual Val label(int) const { return {}; }
  virtual void setLabel(int, Val) {}
  void addChild(tree::ParseTree* c) { children.push_back(c); c->parent = this; }

 protected:
  template <class C> std::vector<C*> kids(int r) const {
    std::vector<C*> v;
    for (auto* c : children)
      if (auto* p = dynamic_cast<C*>(c); p && p->rule == r) v.push_back(p);
    return v;
  }
  template <class C> C* kid(int r, size_t i = 0) const {
    auto v = kids<C>(r);
    return i < v.size() ? v[i] : nullptr;
  }
  std::vector<tree::TerminalNode*> terms(size_t t) const {
    std::vector<tree::TerminalNode*> v;
    for (auto* c : children)
      if (auto* p = dynamic_cast<tree::TerminalNode*>(c);
          p && p->tok->type == t)
        v.push_back(p);
    return v;
  }
  tree::TerminalNode* term(size_t t, size_t i = 0) const {
    auto v = terms(t);
    return i < v.size() ? v[i] : nullptr;
  }
};

// Grammar nodes.
struct GNode {
  enum Kind { kTok, kRule, kSeq, kAlt, kOpt, kStar, kPlus } kind;
  std::vector<int> toks;           // kTok (any of); -1 is EOF
  int rule = 0;                    // kRule
  int label = -1;
  std::vector<GNode> sub;
  bool nullable = false;
  std::set<int> first;
};
struct GRule {
  const char* name;
  GNode body;
  bool left_recursive = false;     // then: prim/ops below
  struct Op { GNode ops; int lhs_label, rhs_label, prec; };
  struct Prefix { GNode op; int label, prec; };
  std::vector<Op> binary;          // lhs OP rhs
  std::vector<Prefix> prefix;
  bool nullable = false;
  std::set<int> first, follow;
};
struct Grammar {
  std::vector<GRule> rules;
  void init() {
    bool ch = true;
    while (ch) {
      ch = false;
      for (auto& r : rules) {
        ch |= fix(r.body);
        for (auto& b : r.binary) ch |= fix(b.ops);
        for (auto& p : r.prefix) ch |= fix(p.op);
        bool n = r.body.nullable;
        auto f = r.body.first;
        for (auto& p : r.prefix) f.insert(p.op.first.begin(), p.op.first.end());
        if (n != r.nullable || f != r.first) { r.nullable = n; r.first = f; ch = true; }
      }
    }
    ch = true;
    while (ch) {
      ch = false;
      for (auto& r : rules) {
        ch |= flow(r.body, r.follow);
        for (auto& b : r.binary) {
          int self = int(&r - rules.data());
          size_t n = r.follow.size();
          r.follow.insert(b.ops.first.begin(), b.ops.first.end());
          ch |= n != r.follow.size();
          ch |= flow(b.ops, rules[self].first);
        }
        for (auto& p : r.prefix) ch |= flow(p.op, r.first);
      }
    }
  }
  bool fix(GNode& n) {
    bool nu = n.nullable;
    auto f = n.first;
    bool ch = false;
    for (auto& s : n.sub) ch |= fix(s);
    switch (n.kind) {
      case GNode::kTok: f.insert(n.toks.begin(), n.toks.end()); break;
      case GNode::kRule:
        nu = rules[n.rule].nullable;
        f.insert(rules[n.rule].first.begin(), rules[n.rule].first.end());
        break;
      case GNode::kSeq: {
        nu = true;
        for (auto& s : n.sub) {
          f.insert(s.first.begin(), s.first.end());
          if (!s.nullable) { nu = false; break; }
        }
        break;
      }
      case GNode::kAlt:
        for (auto& s : n.sub) { nu |= s.nullable; f.insert(s.first.begin(), s.first.end()); }
        break;
      default:
        f.insert(n.sub[0].first.begin(), n.sub[0].first.end());
        nu = n.kind != GNode::kPlus || n.sub[0].nullable;
    }
    if (nu != n.nullable || f != n.first) { n.nullable = nu; n.first = f; ch = true; }
    return ch;
  }
  bool flow(const GNode& n, const std::set<int>& after) {
    bool ch = false;
    switch (n.kind) {
      case GNode::kTok: break;
      case GNode::kRule: {
        auto& t = rules[n.rule].follow;
        size_t z = t.size();
        std::set<int> copy = after;
        t.insert(copy.begin(), copy.end());
        ch = z != t.size();
        break;
      }
      case GNode::kSeq:
        for (size_t i = 0; i < n.sub.size(); ++i) {
          std::set<int> a;
          size_t j = i + 1;
          for (; j < n.sub.size(); ++j) {
            a.insert(n.sub[j].first.begin(), n.sub[j].first.end());
            if (!n.sub[j].nullable) break;
          }
          if (j == n.sub.size()) a.insert(after.begin(), after.end());
          ch |= flow(n.sub[i], a);
        }
        break;
      case GNode::kAlt:
        for (auto& s : n.sub) ch |= flow(s, after);
        break;
      case GNode::kOpt: ch |= flow(n.sub[0], after); break;
      default: {
        std::set<int> a = after;
        a.insert(n.first.begin(), n.first.end());
        ch |= flow(n.sub[0], a);
      }
    }
    return ch;
  }
};

class Parser : public Recognizer {
 public:
  Parser(CommonTokenStream* ts, const Grammar* g) : ts_(ts), g_(g) {}
  void removeErrorListeners() { listeners_.clear(); }
  void addErrorListener(BaseErrorListener* l) { listeners_.push_back(l); }
  size_t getNumberOfSyntaxErrors() const { return errors_; }

 protected:
  virtual ParserRuleContext* make(int rule) = 0;
  ParserRuleContext* run(int rule) {
    far_ = pos_;
    auto* c = parseRule(rule, 0);
    // A rule without an end-of-file mark stops where no alternative starts; an
    // alternative that was entered and could not be completed is an error.
    if (c && far_ <= pos_) return c;
    ++errors_;
    Token* t = &ts_->toks[far_];
    for (auto* l : listeners_)
      l->syntaxError(this, t, t->line, t->col,
                     "mismatched input '" + t->text + "' in " +
                         g_->rules[rule].name, nullptr);
    auto* root = hold(make(rule));
    root->start = root->stop = &ts_->toks[0];
    return root;
  }
  template <class T> T* hold(T* t) {
    pool_.emplace_back(t);
    return t;
  }

 private:
  int la() const {
    auto t = ts_->toks[pos_].type;
    return t == Token::EOF_TYPE ? -1 : int(t);
  }
  void miss() { if (pos_ > far_) far_ = pos_; }
  struct Undo { int id; ParserRuleContext::Val old; };
  struct Mark { size_t pos, kids, undo; };
  ParserRuleContext* parseRule(int rule, int prec) {
    const GRule& r = g_->rules[rule];
    size_t begin = pos_;
    auto* c = hold(make(rule));
    std::vector<Undo> undo;
    c->start = &ts_->toks[pos_];
    bool ok = false;
    for (auto& p : r.prefix) {
      if (!p.op.first.count(la())) continue;
      if (!match(p.op, c, undo, rule)) break;
      auto* e = parseRule(rule, p.prec);
      if (!e) { pos_ = begin; return nullptr; }
      c->addChild(e);
      if (p.label >= 0) c->setLabel(p.label, {nullptr, e});
      ok = true;
      break;
    }
    if (!ok && !match(r.body, c, undo, rule)) { pos_ = begin; return nullptr; }
    finish(c);
    bool more = true;
    while (more && !r.binary.empty()) {
      more = false;
      for (auto& b : r.binary) {
        if (b.prec < prec || !b.ops.first.count(la())) continue;
        size_t save = pos_;
        auto* n = hold(make(rule));
        n->start = c->start;
        n->addChild(c);
        if (b.lhs_label >= 0) n->setLabel(b.lhs_label, {nullptr, c});
        std::vector<Undo> u2;
        if (!match(b.ops, n, u2, rule)) { pos_ = save; c->parent = nullptr; continue; }
        auto* e = parseRule(rule, b.prec + 1);
        if (!e) { pos_ = save; c->parent = nullptr; continue; }
        n->addChild(e);
        if (b.rhs_label >= 0) n->setLabel(b.rhs_label, {nullptr, e});
        finish(n);
        c = n;
        more = true;
        break;
      }
    }
    return c;
  }
  void finish(ParserRuleContext* c) {
    c->stop = pos_ > 0 ? &ts_->toks[pos_ - 1] : c->start;
  }
  void set(ParserRuleContext* c, std::vector<Undo>& u, int id,
           ParserRuleContext::Val v) {
    if (id < 0) return;
    u.push_back({id, c->label(id)});
    c->setLabel(id, v);
  }
  bool match(const GNode& n, ParserRuleContext* c, std::vector<Undo>& u,
             int rule) {
    Mark m{pos_, c->children.size(), u.size()};
    auto back = [&] {
      pos_ = m.pos;
      c->children.resize(m.kids);
      while (u.size() > m.undo) { c->setLabel(u.back().id, u.back().old); u.pop_back(); }
    };
    switch (n.kind) {
      case GNode::kTok: {
        for (int t : n.toks)
          if (t == la()) {
            auto* node = hold(new tree::TerminalNode(&ts_->toks[pos_]));
            c->addChild(node);
            set(c, u, n.label, {&ts_->toks[pos_], nullptr});
            if (t != -1) ++pos_;
            return true;
          }
        miss();
        return false;
      }
      case GNode::kRule: {
        auto* k = parseRule(n.rule, 0);
        if (!k) return false;
        c->addChild(k);
        set(c, u, n.label, {nullptr, k});
        return true;
      }
      case GNode::kSeq:
        for (auto& s : n.sub)
          if (!match(s, c, u, rule)) { back(); return false; }
        return true;
      case GNode::kAlt:
        for (auto& s : n.sub) {
          // An empty match is only worth trying when what follows the rule
          // can come next.
          if (!s.first.count(la()) &&
              !(s.nullable && g_->rules[rule].follow.count(la())))
            continue;
          if (match(s, c, u, rule)) return true;
        }
        for (auto& s : n.sub)
          if (s.nullable && match(s, c, u, rule)) return true;
        miss();
        return false;
      case GNode::kOpt:
        if (n.sub[0].first.count(la())) match(n.sub[0], c, u, rule);
        else miss();
        return true;
      case GNode::kPlus:
        if (!match(n.sub[0], c, u, rule)) return false;
        [[fallthrough]];
      case GNode::kStar:
        while (true) {
          size_t before = pos_;
          if (!n.sub[0].first.count(la())) { miss(); break; }
          if (!match(n.sub[0], c, u, rule) || pos_ == before) break;
        }
        return true;
    }
    return false;
  }
  CommonTokenStream* ts_;
  const Grammar* g_;
  size_t pos_ = 0, far_ = 0, errors_ = 0;
  std::vector<BaseErrorListener*> listeners_;
  std::vector<std::unique_ptr<tree::ParseTree>> pool_;
};
}  // namespace antlr4
#endif

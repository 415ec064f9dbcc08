// Small stand-in for RE2 (its headers are not installed here) over PCRE2:
// the part of the interface that mpact-sim and its generated code use.
// Semantics follow RE2: leftmost match, '$' without (?m) matches only at the
// end of the text.
#ifndef VERIF_SHIM_RE2_H_
#define VERIF_SHIM_RE2_H_
#ifndef PCRE2_CODE_UNIT_WIDTH
#define PCRE2_CODE_UNIT_WIDTH 8
#endif
#include <pcre2.h>

#include <cstdlib>
#include <mutex>
#include <string>
#include <string_view>
#include <vector>

#include "absl/strings/string_view.h"

class RE2 {
 public:
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  class Options {};
  class Arg {
   public:
    Arg() : p_(nullptr), f_(&Null) {}
    Arg(std::nullptr_t) : p_(nullptr), f_(&Null) {}
    Arg(std::string* p) : p_(p), f_(&Str) {}
    Arg(absl::string_view* p) : p_(p), f_(&View<absl::string_view>) {}
    Arg(std::string_view* p) : p_(p), f_(&View<std::string_view>) {}
    Arg(int* p) : p_(p), f_(&Int<int>) {}
    Arg(unsigned* p) : p_(p), f_(&Int<unsigned>) {}
    Arg(long* p) : p_(p), f_(&Int<long>) {}
    Arg(unsigned long* p) : p_(p), f_(&Int<unsigned long>) {}
    bool Parse(const char* s, size_t n) const { return f_(s, n, p_); }

   private:
    static bool Null(const char*, size_t, void*) { return true; }
    static bool Str(const char* s, size_t n, void* p) {
      if (p) static_cast<std::string*>(p)->assign(s ? s : "", s ? n : 0);
      return true;
    }
    template <typename V>
    static bool View(const char* s, size_t n, void* p) {
      if (p) *static_cast<V*>(p) = V(s, n);
      return true;
    }
    template <typename I>
    static bool Int(const char* s, size_t n, void* p) {
      if (n == 0) return false;
      std::string t(s, n);
      char* e;
      long long v = std::strtoll(t.c_str(), &e, 10);
      if (*e) return false;
      if (p) *static_cast<I*>(p) = static_cast<I>(v);
      return true;
    }
    void* p_;
    bool (*f_)(const char*, size_t, void*);
  };

  RE2(const char* p) { Init(p); }
  RE2(const std::string& p) { Init(p); }
  RE2(absl::string_view p) { Init(std::string(p)); }
  RE2(const char* p, const Options&) { Init(p); }
  ~RE2() {
    pcre2_code_free(un_);
    pcre2_code_free(full_);
  }
  RE2(const RE2&) = delete;
  RE2& operator=(const RE2&) = delete;
  bool ok() const { return un_ != nullptr; }
  const std::string& pattern() const { return pattern_; }
  const std::string& error() const { return error_; }
  int NumberOfCapturingGroups() const { return ncap_; }

  // Matches; fills the group spans (including group 0).
  bool DoMatch(const char* s, size_t n, size_t start, Anchor a,
               std::vector<std::pair<const char*, size_t>>* g) const {
    pcre2_code* re = a == ANCHOR_BOTH ? full_ : un_;
    if (re == nullptr) return false;
    if (s == nullptr) s = "";
    pcre2_match_data* md = pcre2_match_data_create_from_pattern(re, nullptr);
    uint32_t opt = a == UNANCHORED ? 0 : PCRE2_ANCHORED;
    int rc = pcre2_match(re, reinterpret_cast<PCRE2_SPTR>(s), n, start, opt, md,
                         nullptr);
    if (rc > 0 && g != nullptr) {
      PCRE2_SIZE* ov = pcre2_get_ovector_pointer(md);
      for (int i = 0; i <= ncap_; i++) {
        if (i < rc && ov[2 * i] != PCRE2_UNSET)
          g->push_back({s + ov[2 * i], ov[2 * i + 1] - ov[2 * i]});
        else
          g->push_back({nullptr, 0});
      }
    }
    pcre2_match_data_free(md);
    return rc > 0;
  }

  static bool FullMatchN(absl::string_view text, const RE2& re,
                         const Arg* const args[], int n) {
    return MatchN(text, re, ANCHOR_BOTH, args, n, nullptr);
  }
  static bool PartialMatchN(absl::string_view text, const RE2& re,
                            const Arg* const args[], int n) {
    return MatchN(text, re, UNANCHORED, args, n, nullptr);
  }
  template <typename... A>
  static bool FullMatch(absl::string_view text, const RE2& re, A&&... a) {
    return Va(text, re, ANCHOR_BOTH, nullptr, Arg(std::forward<A>(a))...);
  }
  template <typename... A>
  static bool PartialMatch(absl::string_view text, const RE2& re, A&&... a) {
    return Va(text, re, UNANCHORED, nullptr, Arg(std::forward<A>(a))...);
  }
  template <typename V, typename... A>
  static bool Consume(V* text, const RE2& re, A&&... a) {
    size_t used = 0;
    if (!Va(*text, re, ANCHOR_START, &used, Arg(std::forward<A>(a))...))
      return false;
    text->remove_prefix(used);
    return true;
  }
  static int GlobalReplace(std::string* str, const RE2& re,
                           absl::string_view rewrite) {
    std::string out;
    size_t pos = 0;
    int count = 0;
    bool last_empty_ok = true;
    while (pos <= str->size()) {
      std::vector<std::pair<const char*, size_t>> g;
      if (!re.DoMatch(str->data(), str->size(), pos, UNANCHORED, &g)) break;
      size_t b = g[0].first - str->data(), e = b + g[0].second;
      out.append(*str, pos, b - pos);
      if (b == e && b == pos && !last_empty_ok) {
        if (pos < str->size()) out.push_back((*str)[pos]);
        pos++;
        last_empty_ok = true;
        continue;
      }
      for (size_t i = 0; i < rewrite.size(); i++) {
        if (rewrite[i] == '\\' && i + 1 < rewrite.size()) {
          char c = rewrite[++i];
          if (c >= '0' && c <= '9') {
            size_t k = c - '0';
            if (k < g.size() && g[k].first)
              out.append(g[k].first, g[k].second);
          } else {
            out.push_back(c);
          }
        } else {
          out.push_back(rewrite[i]);
        }
      }
      count++;
      if (b == e) {
        if (e < str->size()) out.push_back((*str)[e]);
        pos = e + 1;
      } else {
        pos = e;
        last_empty_ok = false;
      }
    }
    if (count == 0) return 0;
    if (pos < str->size()) out.append(*str, pos, std::string::npos);
    *str = out;
    return count;
  }

  class Set {
   public:
    Set(const Options&, Anchor a) : a_(a) {}
    ~Set() {
      for (auto* r : v_) delete r;
    }
    int Add(absl::string_view p, std::string* error) {
      auto* r = new RE2(p);
      if (!r->ok()) {
        if (error) *error = r->error();
        delete r;
        return -1;
      }
      v_.push_back(r);
      return static_cast<int>(v_.size()) - 1;
    }
    bool Compile() { return true; }
    bool Match(absl::string_view text, std::vector<int>* v) const {
      if (v) v->clear();
      bool any = false;
      for (size_t i = 0; i < v_.size(); i++) {
        if (v_[i]->DoMatch(text.data(), text.size(), 0, a_, nullptr)) {
          any = true;
          if (v) v->push_back(static_cast<int>(i));
        }
      }
      return any;
    }

   private:
    Anchor a_;
    std::vector<RE2*> v_;
  };

 private:
  void Init(const std::string& p) {
    pattern_ = p;
    un_ = Compile(p);
    full_ = un_ ? Compile("(?:" + p + ")\\z") : nullptr;
    if (un_) {
      uint32_t c = 0;
      pcre2_pattern_info(un_, PCRE2_INFO_CAPTURECOUNT, &c);
      ncap_ = static_cast<int>(c);
    }
  }
  pcre2_code* Compile(const std::string& p) {
    int err;
    PCRE2_SIZE off;
    pcre2_code* c = pcre2_compile(reinterpret_cast<PCRE2_SPTR>(p.data()),
                                  p.size(), PCRE2_DOLLAR_ENDONLY, &err, &off,
                                  nullptr);
    if (c == nullptr) {
      unsigned char buf[256];
      pcre2_get_error_message(err, buf, sizeof(buf));
      error_ = reinterpret_cast<char*>(buf);
    }
    return c;
  }
  static bool MatchN(absl::string_view text, const RE2& re, Anchor a,
                     const Arg* const args[], int n, size_t* used) {
    if (n > re.ncap_) return false;
    std::vector<std::pair<const char*, size_t>> g;
    if (!re.DoMatch(text.data(), text.size(), 0, a, &g)) return false;
    if (used) {
      const char* base = text.data() ? text.data() : "";
      *used = (g[0].first - base) + g[0].second;
    }
    for (int i = 0; i < n; i++)
      if (!args[i]->Parse(g[i + 1].first, g[i + 1].second)) return false;
    return true;
  }
  template <typename... A>
  static bool Va(absl::string_view text, const RE2& re, Anchor a, size_t* used,
                 A&&... args) {
    const Arg* v[sizeof...(args) + 1] = {&args..., nullptr};
    return MatchN(text, re, a, v, sizeof...(args), used);
  }
  std::string pattern_, error_;
  pcre2_code* un_ = nullptr;
  pcre2_code* full_ = nullptr;
  int ncap_ = 0;
};

class LazyRE2 {
 public:
  RE2& operator*() const { return *get(); }
  RE2* operator->() const { return get(); }
  RE2* get() const {
    static std::mutex mu;
    std::lock_guard<std::mutex> l(mu);
    if (ptr_ == nullptr) ptr_ = new RE2(pattern_);
    return ptr_;
  }
  const char* pattern_;
  mutable RE2* ptr_ = nullptr;
};
#endif

// A small stand-in for RE2 (not installed in this sandbox), on std::regex.
#ifndef VERIF_RE2_H_
#define VERIF_RE2_H_
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>
#include <regex>

#include "absl/strings/string_view.h"

class RE2 {
 public:
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  struct Options {};
  class Arg {
   public:
    Arg() = default;
    explicit Arg(std::string* s) : s_(s) {}
    void Set(const std::string& v) const {
      if (s_ != nullptr) *s_ = v;
    }

   private:
    std::string* s_ = nullptr;
  };
  RE2(const std::string& p) : pattern_(p), re_(p, std::regex::ECMAScript) {}
  RE2(const char* p) : RE2(std::string(p)) {}
  RE2(absl::string_view p) : RE2(std::string(p)) {}
  const std::string& pattern() const { return pattern_; }
  int NumberOfCapturingGroups() const { return re_.mark_count(); }
  bool ok() const { return true; }

  template <typename... A>
  static bool FullMatch(absl::string_view text, const RE2& re, A... args) {
    std::string s(text);
    std::smatch m;
    if (!std::regex_match(s, m, re.re_)) return false;
    return Assign(m, args...);
  }
  template <typename... A>
  static bool PartialMatch(absl::string_view text, const RE2& re, A... args) {
    std::string s(text);
    std::smatch m;
    if (!std::regex_search(s, m, re.re_)) return false;
    return Assign(m, args...);
  }
  static bool FullMatchN(absl::string_view text, const RE2& re,
                         const Arg* const args[], int n) {
    std::string s(text);
    std::smatch m;
    if (!std::regex_match(s, m, re.re_)) return false;
    if (n > static_cast<int>(m.size()) - 1) return false;
    for (int i = 0; i < n; i++) args[i]->Set(m[i + 1].str());
    return true;
  }
  // As in RE2, "\N" in the rewrite is a group and "\\" a backslash.
  static int GlobalReplace(std::string* str, const RE2& re,
                           absl::string_view rewrite) {
    std::string out;
    int count = 0;
    auto it = str->cbegin();
    std::smatch m;
    while (it != str->cend() &&
           std::regex_search(it, str->cend(), m, re.re_) && m[0].length() > 0) {
      out.append(it, m[0].first);
      for (size_t i = 0; i < rewrite.size(); i++) {
        if (rewrite[i] == '\\' && i + 1 < rewrite.size()) {
          i++;
          if (rewrite[i] >= '0' && rewrite[i] <= '9') {
            out += m[rewrite[i] - '0'].str();
          } else {
            out += rewrite[i];
          }
        } else {
          out += rewrite[i];
        }
      }
      it = m[0].second;
      count++;
    }
    out.append(it, str->cend());
    if (count > 0) *str = out;
    return count;
  }

  class Set {
   public:
    Set(const Options&, Anchor a) : anchor_(a) {}
    int Add(absl::string_view p, std::string*) {
      v_.emplace_back(std::string(p));
      return v_.size() - 1;
    }
    bool Compile() { return true; }
    bool Match(absl::string_view text, std::vector<int>* out) const {
      if (out != nullptr) out->clear();
      bool any = false;
      for (size_t i = 0; i < v_.size(); i++) {
        bool hit = anchor_ == ANCHOR_BOTH ? FullMatch(text, v_[i])
                                          : PartialMatch(text, v_[i]);
        if (hit) {
          any = true;
          if (out != nullptr) out->push_back(i);
        }
      }
      return any;
    }

   private:
    Anchor anchor_;
    std::vector<RE2> v_;
  };

 private:
  static bool Assign(const std::smatch&) { return true; }
  template <typename... A>
  static bool Assign(const std::smatch& m, A... args) {
    if (sizeof...(args) > m.size() - 1) return false;
    size_t i = 1;
    return (Put(m[i++].str(), args) && ...);
  }
  static bool Put(const std::string& s, std::string* p) {
    if (p != nullptr) *p = s;
    return true;
  }
  static bool Put(const std::string& s, const Arg* a) {
    a->Set(s);
    return true;
  }
  std::string pattern_;
  std::regex re_;
};

class LazyRE2 {
 public:
  const char* pattern_;
  mutable RE2* ptr_ = nullptr;
  const RE2& operator*() const {
    if (ptr_ == nullptr) ptr_ = new RE2(pattern_);
    return *ptr_;
  }
  const RE2* operator->() const { return &**this; }
};
#endif  // VERIF_RE2_H_

// A small stand-in for RE2 (not installed in this sandbox): a backtracking
// matcher that needs no stack per character of the text.
#ifndef VERIF_RE2_SMALL_H_
#define VERIF_RE2_SMALL_H_
#include <bitset>
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

class RE2 {
 public:
  RE2(const std::string& p) : pattern_(p) {
    size_t i = 0;
    alts_ = Alts(i);
    if (i != pattern_.size()) std::abort();
  }
  RE2(const char* p) : RE2(std::string(p)) {}
  const std::string& pattern() const { return pattern_; }
  bool ok() const { return true; }
  int NumberOfCapturingGroups() const { return groups_; }

  template <typename... A>
  static bool FullMatch(std::string_view text, const RE2& re, A... args) {
    std::vector<std::string_view> g(re.groups_);
    M m{text, &g};
    if (!re.Match(re.alts_, m, 0, [&](size_t p) { return p == text.size(); })) return false;
    return Assign(g, args...);
  }
  template <typename... A>
  static bool PartialMatch(std::string_view text, const RE2& re, A... args) {
    for (size_t s = 0; s <= text.size(); s++) {
      std::vector<std::string_view> g(re.groups_);
      M m{text, &g};
      if (re.Match(re.alts_, m, s, [](size_t) { return true; })) return Assign(g, args...);
    }
    return false;
  }
  template <typename V, typename... A>
  static bool Consume(V* text, const RE2& re, A... args) {
    std::vector<std::string_view> g(re.groups_);
    M m{std::string_view(text->data(), text->size()), &g};
    size_t end = 0;
    if (!re.Match(re.alts_, m, 0, [&](size_t p) { end = p; return true; })) return false;
    text->remove_prefix(end);
    return Assign(g, args...);
  }

 private:
  using Set = std::bitset<256>;
  struct Node;
  using Seq = std::vector<std::shared_ptr<Node>>;
  using AltList = std::vector<Seq>;
  struct Node {
    char anchor = 0;
    bool group = false;
    int capture = -1;
    Set set;
    AltList alts;
    size_t min = 1, max = 1;
    bool lazy = false;
  };
  struct M {
    std::string_view text;
    std::vector<std::string_view>* groups;
  };
  using Cont = std::function<bool(size_t)>;

  AltList Alts(size_t& i) {
    AltList a(1);
    while (i < pattern_.size() && pattern_[i] != ')') {
      if (pattern_[i] == '|') {
        i++;
        a.emplace_back();
        continue;
      }
      if (pattern_.compare(i, 4, "(?s)") == 0) {
        dot_nl_ = true;
        i += 4;
        continue;
      }
      auto n = std::make_shared<Node>();
      if (pattern_[i] == '^' || pattern_[i] == '$') {
        n->anchor = pattern_[i++];
        a.back().push_back(n);
        continue;
      }
      if (pattern_[i] == '(') {
        i++;
        n->group = true;
        if (pattern_.compare(i, 2, "?:") == 0) {
          i += 2;
        } else {
          n->capture = groups_++;
        }
        n->alts = Alts(i);
        if (i >= pattern_.size()) std::abort();
        i++;
      } else {
        n->set = Single(i);
      }
      if (i < pattern_.size()) {
        char q = pattern_[i];
        if (q == '*') n->min = 0, n->max = ~size_t{0}, i++;
        else if (q == '+') n->max = ~size_t{0}, i++;
        else if (q == '?') n->min = 0, i++;
        else if (q == '{') {
          i++;
          n->min = n->max = Number(i);
          if (pattern_[i] == ',') {
            i++;
            n->max = pattern_[i] == '}' ? ~size_t{0} : Number(i);
          }
          i++;
        }
      }
      if (i < pattern_.size() && pattern_[i] == '?' && n->min != n->max) n->lazy = true, i++;
      a.back().push_back(n);
    }
    return a;
  }
  size_t Number(size_t& i) {
    size_t v = 0;
    while (i < pattern_.size() && pattern_[i] >= '0' && pattern_[i] <= '9') v = v * 10 + (pattern_[i++] - '0');
    return v;
  }
  static Set Escape(char c) {
    Set s;
    auto range = [&](int a, int b) { for (int x = a; x <= b; x++) s.set(x); };
    switch (c) {
      case 'd': case 'D': range('0', '9'); break;
      case 'w': case 'W': range('0', '9'); range('a', 'z'); range('A', 'Z'); s.set('_'); break;
      case 's': case 'S': for (char x : {' ', '\t', '\n', '\f', '\r'}) s.set(x); break;
      case 'n': s.set('\n'); return s;
      case 't': s.set('\t'); return s;
      case 'r': s.set('\r'); return s;
      default: s.set(static_cast<uint8_t>(c)); return s;
    }
    if (c == 'D' || c == 'W' || c == 'S') s.flip();
    return s;
  }
  Set Single(size_t& i) {
    char c = pattern_[i++];
    Set s;
    if (c == '.') {
      s.set();
      if (!dot_nl_) s.reset('\n');
      return s;
    }
    if (c == '\\') return Escape(pattern_[i++]);
    if (c != '[') {
      s.set(static_cast<uint8_t>(c));
      return s;
    }
    bool neg = pattern_[i] == '^';
    if (neg) i++;
    bool first = true;
    while (first || pattern_[i] != ']') {
      first = false;
      if (pattern_[i] == '\\') {
        i++;
        s |= Escape(pattern_[i++]);
        continue;
      }
      uint8_t lo = pattern_[i++];
      if (pattern_[i] == '-' && pattern_[i + 1] != ']') {
        uint8_t hi = pattern_[i + 1];
        i += 2;
        for (int x = lo; x <= hi; x++) s.set(x);
      } else {
        s.set(lo);
      }
    }
    i++;
    if (neg) s.flip();
    return s;
  }

  bool Match(const AltList& alts, M& m, size_t pos, const Cont& k) const {
    for (const Seq& s : alts)
      if (MatchSeq(s, 0, m, pos, k)) return true;
    return false;
  }
  bool MatchSeq(const Seq& s, size_t at, M& m, size_t pos, const Cont& k) const {
    if (at == s.size()) return k(pos);
    const Node& n = *s[at];
    Cont rest = [&, at](size_t p) { return MatchSeq(s, at + 1, m, p, k); };
    if (n.anchor != 0) {
      return pos == (n.anchor == '^' ? 0 : m.text.size()) && rest(pos);
    }
    if (!n.group) {
      size_t most = 0;
      while (most < n.max && pos + most < m.text.size() &&
             n.set.test(static_cast<uint8_t>(m.text[pos + most])))
        most++;
      if (most < n.min) return false;
      if (n.lazy) {
        for (size_t c = n.min; c <= most; c++)
          if (rest(pos + c)) return true;
        return false;
      }
      for (size_t c = most + 1; c-- > n.min;)
        if (rest(pos + c)) return true;
      return false;
    }
    return Repeat(n, 0, m, pos, rest);
  }
  bool Repeat(const Node& n, size_t done, M& m, size_t pos, const Cont& rest) const {
    auto again = [&] {
      if (done >= n.max) return false;
      return Match(n.alts, m, pos, [&](size_t p) {
        if (p == pos && done >= n.min) return false;
        std::string_view old;
        if (n.capture >= 0) {
          old = (*m.groups)[n.capture];
          (*m.groups)[n.capture] = m.text.substr(pos, p - pos);
        }
        if (Repeat(n, done + 1, m, p, rest)) return true;
        if (n.capture >= 0) (*m.groups)[n.capture] = old;
        return false;
      });
    };
    if (n.lazy) return (done >= n.min && rest(pos)) || again();
    return again() || (done >= n.min && rest(pos));
  }

  template <typename... A>
  static bool Assign(const std::vector<std::string_view>& g, A... args) {
    if (sizeof...(args) > g.size()) return false;
    size_t i = 0;
    (void)i;
    return (Put(g[i++], args) && ...);
  }
  static bool Put(std::string_view s, std::string* p) { if (p) *p = std::string(s); return true; }
  static bool Put(std::string_view s, std::string_view* p) { if (p) *p = s; return true; }
  static bool Put(std::string_view s, char* p) { if (s.size() != 1) return false; if (p) *p = s[0]; return true; }
  template <typename T>
  static bool Put(std::string_view s, T* p) {
    std::string t(s);
    char* e = nullptr;
    if (t.empty()) return false;
    errno = 0;
    long long v = std::strtoll(t.c_str(), &e, 10);
    if (*e || errno || static_cast<T>(v) != v) return false;
    if (p) *p = static_cast<T>(v);
    return true;
  }
  bool dot_nl_ = false;
  std::string pattern_;
  int groups_ = 0;
  AltList alts_;
};

class LazyRE2 {
 public:
  const char* pattern_;
  mutable RE2* ptr_ = nullptr;
  const RE2& operator*() const {
    if (ptr_ == nullptr) ptr_ = new RE2(pattern_);
    return *ptr_;
  }
  const RE2* operator->() const { return &**this; }
};
#endif  // VERIF_RE2_SMALL_H_

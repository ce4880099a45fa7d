// A small stand-in for the ANTLR4 C++ runtime (not installed in this sandbox):
// table-driven longest-match lexer and an exhaustive, ordered-choice parser
// over the grammar tables that lib/miniantlr.py derives from /repo's .g4
// files. Only the interface that /repo's visitors use is provided.
#ifndef VERIF_ANTLR4_RUNTIME_H_
#define VERIF_ANTLR4_RUNTIME_H_

#include <cstddef>
#include <cstdint>
#include <deque>
#include <exception>
#include <istream>
#include <iterator>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <vector>

namespace antlrcpp {
class BitSet {};
}  // namespace antlrcpp

namespace antlr4 {

class Parser;
class Recognizer {
 public:
  virtual ~Recognizer() = default;
};

namespace dfa {
class DFA {};
}  // namespace dfa
namespace atn {
class ATNConfigSet {};
}  // namespace atn

class Token {
 public:
  static constexpr size_t EOF_TYPE = static_cast<size_t>(-1);
  size_t getLine() const { return line; }
  size_t getCharPositionInLine() const { return column; }
  std::string getText() const { return text; }
  size_t getType() const { return type; }

  size_t type = 0;
  size_t line = 0;
  size_t column = 0;
  bool hidden = false;
  std::string text;
};

class ANTLRErrorListener {
 public:
  virtual ~ANTLRErrorListener() = default;
  virtual void syntaxError(Recognizer*, Token*, size_t, size_t,
                           const std::string&, std::exception_ptr) = 0;
  virtual void reportAmbiguity(Parser*, const dfa::DFA&, size_t, size_t, bool,
                               const antlrcpp::BitSet&, atn::ATNConfigSet*) = 0;
  virtual void reportAttemptingFullContext(Parser*, const dfa::DFA&, size_t,
                                           size_t, const antlrcpp::BitSet&,
                                           atn::ATNConfigSet*) = 0;
  virtual void reportContextSensitivity(Parser*, const dfa::DFA&, size_t,
                                        size_t, size_t,
                                        atn::ATNConfigSet*) = 0;
};

class BaseErrorListener : public ANTLRErrorListener {
 public:
  void syntaxError(Recognizer*, Token*, size_t, size_t, const std::string&,
                   std::exception_ptr) override {}
  void reportAmbiguity(Parser*, const dfa::DFA&, size_t, size_t, bool,
                       const antlrcpp::BitSet&, atn::ATNConfigSet*) override {}
  void reportAttemptingFullContext(Parser*, const dfa::DFA&, size_t, size_t,
                                   const antlrcpp::BitSet&,
                                   atn::ATNConfigSet*) override {}
  void reportContextSensitivity(Parser*, const dfa::DFA&, size_t, size_t,
                                size_t, atn::ATNConfigSet*) override {}
};

namespace tree {
class ParseTree {
 public:
  virtual ~ParseTree() = default;
  virtual std::string getText() = 0;
};
class TerminalNode : public ParseTree {
 public:
  explicit TerminalNode(Token* t) : symbol_(t) {}
  Token* getSymbol() const { return symbol_; }
  std::string getText() override { return symbol_->getText(); }

 private:
  Token* symbol_;
};
}  // namespace tree

class ParserRuleContext : public tree::ParseTree {
 public:
  Token* start = nullptr;
  Token* stop = nullptr;
  std::vector<tree::ParseTree*> children;

  std::string getText() override {
    std::string out;
    for (auto* c : children) out += c->getText();
    return out;
  }
  Token* getStart() const { return start; }
  Token* getStop() const { return stop; }
  virtual void SetLabel(int, Token*) {}
  virtual void SetLabel(int, ParserRuleContext*) {}

 protected:
  std::vector<tree::TerminalNode*> Tokens(size_t type) const {
    std::vector<tree::TerminalNode*> out;
    for (auto* c : children) {
      auto* t = dynamic_cast<tree::TerminalNode*>(c);
      if (t != nullptr && t->getSymbol()->type == type) out.push_back(t);
    }
    return out;
  }
  tree::TerminalNode* NthToken(size_t type, size_t i) const {
    auto v = Tokens(type);
    return i < v.size() ? v[i] : nullptr;
  }
  template <typename C>
  std::vector<C*> Rules() const {
    std::vector<C*> out;
    for (auto* c : children) {
      if (auto* r = dynamic_cast<C*>(c)) out.push_back(r);
    }
    return out;
  }
  template <typename C>
  C* NthRule(size_t i) const {
    auto v = Rules<C>();
    return i < v.size() ? v[i] : nullptr;
  }
};

class ANTLRInputStream {
 public:
  void load(std::istream& in, bool = false) {
    data.assign(std::istreambuf_iterator<char>(in),
                std::istreambuf_iterator<char>());
  }
  void load(const std::string& s, bool = false) { data = s; }
  std::string data;
};

// DFA over 129 symbol classes: 0..127 are the ASCII characters, 128 any other.
struct LexTables {
  const short (*next)[129];
  const short* accept;  // Token type, or -1.
  const unsigned char* hidden;  // By token type.
};

class TokenSource : public Recognizer {
 public:
  TokenSource(ANTLRInputStream* in, const LexTables& t) : in_(in), t_(t) {}
  std::deque<Token> Run() const {
    std::deque<Token> out;
    const std::string& s = in_->data;
    size_t i = 0, line = 1, col = 0;
    while (i < s.size()) {
      int st = 0, acc = -1;
      size_t j = i, end = i;
      while (j < s.size()) {
        unsigned char c = s[j];
        st = t_.next[st][c < 128 ? c : 128];
        if (st < 0) break;
        j++;
        if (t_.accept[st] >= 0) {
          acc = t_.accept[st];
          end = j;
        }
      }
      if (acc < 0) end = i + 1;
      if (acc >= 0) {
        Token t;
        t.type = acc;
        t.line = line;
        t.column = col;
        t.hidden = t_.hidden[acc];
        t.text = s.substr(i, end - i);
        if (!t.hidden) out.push_back(t);
      }
      for (; i < end; i++) {
        if (s[i] == '\n') {
          line++;
          col = 0;
        } else {
          col++;
        }
      }
    }
    Token eof;
    eof.type = Token::EOF_TYPE;
    eof.line = line;
    eof.column = col;
    eof.text = "<EOF>";
    out.push_back(eof);
    return out;
  }

 private:
  ANTLRInputStream* in_;
  LexTables t_;
};
using Lexer = TokenSource;

class CommonTokenStream {
 public:
  explicit CommonTokenStream(TokenSource* lexer) : lexer_(lexer) {}
  std::deque<Token>& tokens() {
    if (tokens_.empty()) tokens_ = lexer_->Run();
    return tokens_;
  }

 private:
  TokenSource* lexer_;
  std::deque<Token> tokens_;
};

// Grammar tables.
struct GElem {
  enum Kind { kTok, kRule, kSeq, kAlt, kOpt, kStar, kPlus };
  int kind;
  int arg;    // Token type or rule index.
  int label;  // -1 if none.
  int prec;   // Minimum precedence of a rule reference (left recursion).
  std::vector<int> kids;
};
struct GRule {
  int body = -1;  // Non-recursive alternatives.
  // Left recursive alternatives: (precedence, remainder, label of the left
  // operand).
  std::vector<std::tuple<int, int, int>> suffixes;
};
struct Grammar {
  std::vector<GElem> elems;
  std::vector<GRule> rules;
};

class Parser : public Recognizer {
 public:
  Parser(CommonTokenStream* tokens, const Grammar& g)
      : stream_(tokens), g_(g) {}
  ~Parser() override = default;
  void removeErrorListeners() { listeners_.clear(); }
  void addErrorListener(ANTLRErrorListener* l) { listeners_.push_back(l); }
  size_t getNumberOfSyntaxErrors() const { return errors_; }

 protected:
  virtual std::unique_ptr<ParserRuleContext> Make(int rule) = 0;

  ParserRuleContext* Run(int rule) {
    auto& toks = stream_->tokens();
    toks_ = &toks;
    memo_.clear();
    far_ = at_;
    // A parser goes on from where it stopped.
    const auto& res = Rule(rule, 0, at_);
    if (res.empty()) {
      at_ = static_cast<int>(toks.size()) - 1;
      errors_++;
      Token* t = &toks[far_];
      for (auto* l : listeners_) {
        l->syntaxError(this, t, t->line, t->column,
                       "mismatched input '" + t->text + "'", nullptr);
      }
      auto ctx = Make(rule);
      ctx->start = &toks[0];
      ctx->stop = &toks[0];
      trees_.push_back(std::move(ctx));
      return static_cast<ParserRuleContext*>(trees_.back().get());
    }
    at_ = res.front()->end;
    return Build(res.front());
  }

 private:
  int at_ = 0;
  struct Node;
  struct Item {
    const Item* prev;
    int tok;            // Token index, or -1.
    const Node* node;   // Or nullptr.
    int label;
  };
  struct Node {
    int rule;
    int begin, end;
    const Item* last;
  };
  struct Part {
    int end;
    const Item* last;
  };

  const Item* NewItem(const Item* prev, int tok, const Node* node, int label) {
    items_.push_back(Item{prev, tok, node, label});
    return &items_.back();
  }
  const Node* NewNode(int rule, int begin, int end, const Item* last) {
    nodes_.push_back(Node{rule, begin, end, last});
    return &nodes_.back();
  }

  // All derivations of the rule at pos, preferred ones first, one per end.
  const std::vector<const Node*>& Rule(int rule, int prec, int pos) {
    auto key = std::make_tuple(rule, prec, pos);
    auto it = memo_.find(key);
    if (it != memo_.end()) return it->second;
    std::vector<const Node*> out;
    for (auto& p : Match(g_.rules[rule].body, pos, nullptr)) {
      AddNode(out, NewNode(rule, pos, p.end, p.last));
    }
    if (!g_.rules[rule].suffixes.empty()) {
      // Greedy extension with operators that bind at least as tightly as prec.
      std::vector<const Node*> all;
      std::vector<const Node*> level = out;
      while (!level.empty()) {
        // Of the derivations with the same end, the one with the fewest steps
        // here: what binds more tightly is in the operands.
        all.insert(all.end(), level.begin(), level.end());
        std::vector<const Node*> next;
        for (const Node* left : level) {
          for (auto& [p, rest, label] : g_.rules[rule].suffixes) {
            if (p < prec) continue;
            const Item* first = NewItem(nullptr, -1, left, label);
            for (auto& r : Match(rest, left->end, first)) {
              AddNode(next, NewNode(rule, pos, r.end, r.last));
            }
          }
        }
        level = next;
      }
      // Prefer the longest.
      out.clear();
      std::map<int, const Node*, std::greater<int>> by_end;
      for (const Node* n : all) by_end.emplace(n->end, n);
      for (auto& [unused, n] : by_end) out.push_back(n);
    }
    return memo_[key] = out;
  }
  static void AddNode(std::vector<const Node*>& v, const Node* n) {
    for (auto* o : v) {
      if (o->end == n->end) return;
    }
    v.push_back(n);
  }
  static void Add(std::vector<Part>& v, const Part& p) {
    for (auto& o : v) {
      if (o.end == p.end) return;
    }
    v.push_back(p);
  }

  std::vector<Part> Match(int e, int pos, const Item* last) {
    const GElem& el = g_.elems[e];
    std::vector<Part> out;
    switch (el.kind) {
      case GElem::kTok:
        if (pos > far_) far_ = pos;
        if (pos < static_cast<int>(toks_->size()) &&
            static_cast<int>((*toks_)[pos].type) == el.arg) {
          // EOF is never consumed, so that trailing rules still see it.
          int next = el.arg == -1 ? pos : pos + 1;
          out.push_back({next, NewItem(last, pos, nullptr, el.label)});
        }
        break;
      case GElem::kRule: {
        auto nodes = Rule(el.arg, el.prec, pos);
        for (const Node* n : nodes) {
          out.push_back({n->end, NewItem(last, -1, n, el.label)});
        }
        break;
      }
      case GElem::kSeq: {
        std::vector<Part> cur = {{pos, last}};
        for (int k : el.kids) {
          std::vector<Part> next;
          for (auto& p : cur) {
            for (auto& q : Match(k, p.end, p.last)) Add(next, q);
          }
          cur.swap(next);
          if (cur.empty()) break;
        }
        out = cur;
        break;
      }
      case GElem::kAlt:
        for (int k : el.kids) {
          for (auto& p : Match(k, pos, last)) Add(out, p);
        }
        break;
      case GElem::kOpt:
        out = Match(el.kids[0], pos, last);
        Add(out, {pos, last});
        break;
      case GElem::kStar:
      case GElem::kPlus: {
        // Levels of repetition; longer repetitions are preferred.
        std::vector<std::vector<Part>> levels;
        std::vector<Part> cur = {{pos, last}};
        std::map<int, bool> seen;
        seen[pos] = true;
        levels.push_back(cur);
        while (true) {
          std::vector<Part> next;
          for (auto& p : cur) {
            for (auto& q : Match(el.kids[0], p.end, p.last)) {
              if (seen.count(q.end)) continue;
              seen[q.end] = true;
              next.push_back(q);
            }
          }
          if (next.empty()) break;
          levels.push_back(next);
          cur = next;
        }
        size_t low = el.kind == GElem::kPlus ? 1 : 0;
        for (size_t i = levels.size(); i > low; i--) {
          for (auto& p : levels[i - 1]) Add(out, p);
        }
        break;
      }
    }
    return out;
  }

  ParserRuleContext* Build(const Node* n) {
    auto ctx = Make(n->rule);
    auto* c = ctx.get();
    trees_.push_back(std::move(ctx));
    std::vector<const Item*> v;
    for (const Item* i = n->last; i != nullptr; i = i->prev) v.push_back(i);
    c->start = &(*toks_)[n->begin];
    c->stop = &(*toks_)[n->end > n->begin ? n->end - 1 : n->begin];
    for (size_t k = v.size(); k > 0; k--) {
      const Item* i = v[k - 1];
      if (i->node != nullptr) {
        auto* child = Build(i->node);
        c->children.push_back(child);
        if (i->label >= 0) c->SetLabel(i->label, child);
      } else {
        Token* t = &(*toks_)[i->tok];
        auto term = std::make_unique<tree::TerminalNode>(t);
        c->children.push_back(term.get());
        trees_.push_back(std::move(term));
        if (i->label >= 0) c->SetLabel(i->label, t);
      }
    }
    return c;
  }

  CommonTokenStream* stream_;
  const Grammar& g_;
  std::deque<Token>* toks_ = nullptr;
  std::vector<ANTLRErrorListener*> listeners_;
  size_t errors_ = 0;
  int far_ = 0;
  std::deque<Item> items_;
  std::deque<Node> nodes_;
  std::map<std::tuple<int, int, int>, std::vector<const Node*>> memo_;
  std::vector<std::unique_ptr<tree::ParseTree>> trees_;
};

}  // namespace antlr4

#endif  // VERIF_ANTLR4_RUNTIME_H_

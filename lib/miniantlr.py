#!/usr/bin/env python3
"""Derives C++ lexer/parser headers from an ANTLR4 grammar of /repo.

usage: miniantlr.py GRAMMAR.g4 NAMESPACE OUTDIR

The generated classes have the interface that /repo's visitors use of the ones
ANTLR would generate; they run on shim/antlr4-runtime. Supported: what the
grammars in mpact/sim/decoder use (labels, sets, ? * +, direct left recursion,
fragments, channel(HIDDEN), non-greedy loops in lexer rules).
"""
import os
import re
import sys

TOK = re.compile(r"""
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 |(?P<lit>'(?:\\.|[^'\\])*')
 |(?P<set>\[(?:\\.|[^\]\\])*\])
 |(?P<id>[A-Za-z_][A-Za-z_0-9]*)
 |(?P<op>->|[:;|()*+?~=.,])
""", re.X | re.S)


def tokenize(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise SystemExit("g4: cannot tokenize at %r" % text[pos:pos + 30])
        pos = m.end()
        if m.lastgroup != 'ws':
            out.append((m.lastgroup, m.group()))
    return out


class P:
    """Recursive descent over the grammar file; AST nodes are tuples."""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('eof', '')

    def take(self, v=None):
        k = self.peek()
        if v is not None and k[1] != v:
            raise SystemExit("g4: expected %r, got %r" % (v, k))
        self.i += 1
        return k

    def grammar(self):
        assert self.take()[1] == 'grammar'
        name = self.take()[1]
        self.take(';')
        rules = []
        while self.peek()[0] != 'eof':
            frag = False
            if self.peek()[1] == 'fragment':
                self.take()
                frag = True
            rname = self.take()[1]
            self.take(':')
            body = self.alts()
            hidden = False
            if self.peek()[1] == '->':
                while self.peek()[1] != ';':
                    hidden = True
                    self.take()
            self.take(';')
            rules.append((rname, frag, hidden, body))
        return name, rules

    def alts(self):
        out = [self.seq()]
        while self.peek()[1] == '|':
            self.take()
            out.append(self.seq())
        return ('alt', out)

    def seq(self):
        out = []
        while self.peek()[1] not in ('|', ')', ';', '->') and self.peek()[0] != 'eof':
            out.append(self.elem())
        return ('seq', out)

    def elem(self):
        label = None
        if (self.peek()[0] == 'id' and self.i + 1 < len(self.t)
                and self.t[self.i + 1][1] == '='):
            label = self.take()[1]
            self.take('=')
        neg = False
        if self.peek()[1] == '~':
            self.take()
            neg = True
        k, v = self.take()
        if v == '(':
            e = self.alts()
            self.take(')')
        elif k == 'lit':
            e = ('lit', v[1:-1])
        elif k == 'set':
            e = ('set', v[1:-1], neg)
        elif v == '.':
            e = ('any',)
        elif k == 'id':
            e = ('ref', v)
        else:
            raise SystemExit("g4: unexpected %r" % v)
        if label:
            e = ('label', label, e)
        while self.peek()[1] in ('*', '+', '?') and self.peek()[0] == 'op':
            op = self.take()[1]
            lazy = False
            if self.peek()[1] == '?':
                self.take()
                lazy = True
            e = ({'*': 'star', '+': 'plus', '?': 'opt'}[op], e, lazy)
        return e


ESC = {'n': '\n', 'r': '\r', 't': '\t', 'f': '\f', 'b': '\b'}


def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\':
            i += 1
            out.append(ESC.get(s[i], s[i]))
        else:
            out.append(s[i])
        i += 1
    return out


def charset(s):
    chars, i, items = set(), 0, []
    while i < len(s):
        if s[i] == '\\':
            i += 1
            items.append(('c', ESC.get(s[i], s[i])))
        elif s[i] == '-' and items and i + 1 < len(s):
            items.append(('-', '-'))
        else:
            items.append(('c', s[i]))
        i += 1
    j = 0
    while j < len(items):
        if j + 2 < len(items) and items[j + 1][0] == '-':
            for c in range(ord(items[j][1]), ord(items[j + 2][1]) + 1):
                chars.add(c)
            j += 3
        else:
            chars.add(ord(items[j][1]))
            j += 1
    return chars


ALL = frozenset(range(129))


class NFA:
    def __init__(self):
        self.eps, self.tr = [], []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, e, rules):
        """Returns (start, end)."""
        k = e[0]
        if k == 'alt':
            s, t = self.new(), self.new()
            for a in e[1]:
                x, y = self.build(a, rules)
                self.eps[s].append(x)
                self.eps[y].append(t)
            return s, t
        if k == 'seq':
            s = cur = self.new()
            for a in e[1]:
                x, y = self.build(a, rules)
                self.eps[cur].append(x)
                cur = y
            return s, cur
        if k == 'lit':
            s = cur = self.new()
            for c in unescape(e[1]):
                n = self.new()
                self.tr[cur].append((frozenset([ord(c)]), n))
                cur = n
            return s, cur
        if k in ('set', 'any'):
            s, t = self.new(), self.new()
            if k == 'any':
                cs = ALL
            else:
                cs = frozenset(charset(e[1]))
                if e[2]:
                    cs = ALL - cs
            self.tr[s].append((cs, t))
            return s, t
        if k == 'ref':
            if e[1] == 'EOF':
                return self.new(), self.new()  # Never matches.
            return self.build(rules[e[1]][3], rules)
        if k == 'label':
            return self.build(e[2], rules)
        if k in ('star', 'plus', 'opt'):
            x, y = self.build(e[1], rules)
            s, t = self.new(), self.new()
            self.eps[s].append(x)
            self.eps[y].append(t)
            if k != 'opt':
                self.eps[y].append(x)
            if k != 'plus':
                self.eps[s].append(t)
            return s, t
        raise SystemExit("g4: lexer element %r" % (e,))

    def closure(self, states):
        st, out = list(states), set(states)
        while st:
            for n in self.eps[st.pop()]:
                if n not in out:
                    out.add(n)
                    st.append(n)
        return frozenset(out)


def has_lazy(e):
    if e[0] in ('star', 'plus', 'opt'):
        return e[2] or has_lazy(e[1])
    if e[0] in ('alt', 'seq'):
        return any(has_lazy(x) for x in e[1])
    return False


def cap(s):
    return s[0].upper() + s[1:]


class Gen:
    def __init__(self, path, namespace):
        self.name, self.rules = P(tokenize(open(path).read())).grammar()
        self.ns = namespace.split('::')
        self.prules = [r for r in self.rules if r[0][0].islower()]
        self.lrules = [r for r in self.rules if r[0][0].isupper()]
        self.pindex = {r[0]: i for i, r in enumerate(self.prules)}
        lmap = {r[0]: r for r in self.lrules}
        # Token types: literals without a rule of their own come first.
        named = {}
        for r in self.lrules:
            b = r[3]
            if not r[1] and len(b[1]) == 1 and len(b[1][0][1]) == 1 and b[1][0][1][0][0] == 'lit':
                named.setdefault(b[1][0][1][0][1], r[0])
        self.lits = []

        def collect(e):
            if e[0] == 'lit':
                if e[1] not in named and e[1] not in self.lits:
                    self.lits.append(e[1])
            elif e[0] in ('alt', 'seq'):
                for x in e[1]:
                    collect(x)
            elif e[0] == 'label':
                collect(e[2])
            elif e[0] in ('star', 'plus', 'opt'):
                collect(e[1])
        for r in self.prules:
            collect(r[3])
        self.type = {}
        order = []
        for i, l in enumerate(self.lits):
            self.type["'" + l] = len(order)
            order.append(('seq', [('lit', l)], False, False))
        for r in self.lrules:
            if r[1]:
                continue
            self.type[r[0]] = len(order)
            order.append((r[3], None, r[2], has_lazy(r[3])))
        self.named = named
        self.order = order
        self.lmap = lmap
        self.elems = []

    # --- lexer -------------------------------------------------------------
    def dfa(self):
        nfa = NFA()
        start = nfa.new()
        final = {}
        lazy = set()
        for t, o in enumerate(self.order):
            e = o if o[0] == 'seq' else o[0]
            s, x = nfa.build(e, self.lmap)
            nfa.eps[start].append(s)
            final[x] = t
            if o[3]:
                lazy.add(t)
        s0 = nfa.closure([start])
        ids, work, nxt, acc = {s0: 0}, [s0], [], []
        while len(nxt) < len(work):
            cur = work[len(nxt)]
            fins = sorted(final[s] for s in cur if s in final)
            acc.append(fins[0] if fins else -1)
            row = [-1] * 129
            if not any(f in lazy for f in fins):
                for c in range(129):
                    tgt = set()
                    for s in cur:
                        for cs, n in nfa.tr[s]:
                            if c in cs:
                                tgt.add(n)
                    if tgt:
                        cl = nfa.closure(tgt)
                        if cl not in ids:
                            ids[cl] = len(work)
                            work.append(cl)
                        row[c] = ids[cl]
            nxt.append(row)
        return nxt, acc

    # --- parser ------------------------------------------------------------
    def tok(self, e):
        """Token type of a literal or token reference; None otherwise."""
        if e[0] == 'lit':
            return self.type[self.named[e[1]]] if e[1] in self.named else self.type["'" + e[1]]
        if e[0] == 'ref' and e[1] == 'EOF':
            return -1
        if e[0] == 'ref' and e[1][0].isupper():
            return self.type[e[1]]
        return None

    def add(self, kind, arg=0, label=-1, prec=0, kids=()):
        self.elems.append((kind, arg, label, prec, list(kids)))
        return len(self.elems) - 1

    def compile(self, e, rule, label=-1, prec=None):
        k = e[0]
        if k == 'label':
            return self.compile(e[2], rule, self.labels[rule].index(e[1]), prec)
        t = self.tok(e)
        if t is not None:
            return self.add('kTok', t, label)
        if k == 'ref':
            p = prec if (prec is not None and e[1] == rule) else 0
            return self.add('kRule', self.pindex[e[1]], label, p)
        if k == 'seq':
            return self.add('kSeq', kids=[self.compile(x, rule, label, prec) for x in e[1]])
        if k == 'alt':
            if len(e[1]) == 1:
                return self.compile(e[1][0], rule, label, prec)
            return self.add('kAlt', kids=[self.compile(x, rule, label, prec) for x in e[1]])
        kind = {'star': 'kStar', 'plus': 'kPlus', 'opt': 'kOpt'}[k]
        return self.add(kind, kids=[self.compile(e[1], rule, label, prec)])

    def find_labels(self, e, out):
        if e[0] == 'label':
            ctx = e[2][1] if e[2][0] == 'ref' and e[2][1][0].islower() else None
            out.setdefault(e[1], ctx)
        elif e[0] in ('alt', 'seq'):
            for x in e[1]:
                self.find_labels(x, out)
        elif e[0] in ('star', 'plus', 'opt'):
            self.find_labels(e[1], out)

    def freq(self, e):
        """Multiplicity (2: many) of each named token / rule."""
        if e[0] == 'label':
            return self.freq(e[2])
        if e[0] == 'lit':
            return {self.named[e[1]]: 1} if e[1] in self.named else {}
        if e[0] == 'ref':
            return {e[1]: 1}
        if e[0] == 'seq':
            out = {}
            for x in e[1]:
                for n, c in self.freq(x).items():
                    out[n] = min(2, out.get(n, 0) + c)
            return out
        if e[0] == 'alt':
            out = {}
            for x in e[1]:
                for n, c in self.freq(x).items():
                    out[n] = max(out.get(n, 0), c)
            return out
        f = self.freq(e[1])
        if e[0] in ('star', 'plus'):
            return {n: 2 for n in f}
        return f

    def run(self, outdir):
        os.makedirs(outdir, exist_ok=True)
        nxt, acc = self.dfa()
        op = ''.join('namespace %s {\n' % n for n in self.ns)
        cl = '}\n' * len(self.ns)
        n = self.name
        h = ['#ifndef VERIF_%sLexer\n#define VERIF_%sLexer\n#include "antlr4-runtime/antlr4-runtime.h"\n' % (n, n), op]
        h.append('class %sLexer : public antlr4::Lexer {\n public:\n' % n)
        h.append('  explicit %sLexer(antlr4::ANTLRInputStream* in) : antlr4::Lexer(in, Tables()) {}\n' % n)
        h.append('  enum {\n')
        for name, t in self.type.items():
            if name[0] != "'":
                h.append('    %s = %d,\n' % (name, t))
        h.append('  };\n private:\n  static antlr4::LexTables Tables() {\n')
        h.append('    static const short next[][129] = {\n')
        for row in nxt:
            h.append('{' + ','.join(map(str, row)) + '},\n')
        h.append('};\n    static const short accept[] = {%s};\n' % ','.join(map(str, acc)))
        h.append('    static const unsigned char hidden[] = {%s};\n' % ','.join(
            '1' if (o[0] != 'seq' and o[2]) else '0' for o in self.order))
        h.append('    return {next, accept, hidden};\n  }\n};\n' + cl + '#endif\n')
        self.write(outdir, n + 'Lexer.h', ''.join(h))

        self.labels = {}
        ltypes = {}
        for r in self.prules:
            d = {}
            self.find_labels(r[3], d)
            ltypes[r[0]] = d
            self.labels[r[0]] = list(d)
        grules = []
        for r in self.prules:
            alts = r[3][1]
            rec = [a for a in alts if self.starts_with(a, r[0])]
            if not rec:
                grules.append((self.compile(r[3], r[0]), []))
                continue
            prim, suf = [], []
            for i, a in enumerate(alts):
                p = len(alts) - i
                if a in rec:
                    first = a[1][0]
                    lab = self.labels[r[0]].index(first[1]) if first[0] == 'label' else -1
                    suf.append((p, self.compile(('seq', a[1][1:]), r[0], -1, p + 1), lab))
                else:
                    # A prefix operator binds its operand at its own level.
                    last = a[1][-1]
                    is_prefix = self.is_ref(last, r[0])
                    prim.append(self.compile(a, r[0], -1, p if is_prefix else 0))
            grules.append((self.add('kAlt', kids=prim), suf))

        h = ['#ifndef VERIF_%sParser\n#define VERIF_%sParser\n#include <memory>\n#include <vector>\n#include "antlr4-runtime/antlr4-runtime.h"\n' % (n, n), op]
        h.append('class %sParser : public antlr4::Parser {\n public:\n' % n)
        h.append('  explicit %sParser(antlr4::CommonTokenStream* t) : antlr4::Parser(t, G()) {}\n' % n)
        for r in self.prules:
            h.append('  class %sContext;\n' % cap(r[0]))
        for r in self.prules:
            h.append('  class %sContext : public antlr4::ParserRuleContext {\n   public:\n' % cap(r[0]))
            for lab, ctx in ltypes[r[0]].items():
                h.append('    %s* %s = nullptr;\n' % (cap(ctx) + 'Context' if ctx else 'antlr4::Token', lab))
            for name, c in self.freq(r[3]).items():
                if name[0].isupper():
                    t = '-1' if name == 'EOF' else str(self.type[name])
                    if name == 'EOF':
                        continue
                    if c > 1:
                        h.append('    std::vector<antlr4::tree::TerminalNode*> %s() { return Tokens(%s); }\n' % (name, t))
                        h.append('    antlr4::tree::TerminalNode* %s(size_t i) { return NthToken(%s, i); }\n' % (name, t))
                    else:
                        h.append('    antlr4::tree::TerminalNode* %s() { return NthToken(%s, 0); }\n' % (name, t))
                else:
                    ty = cap(name) + 'Context'
                    if c > 1:
                        h.append('    std::vector<%s*> %s() { return Rules<%s>(); }\n' % (ty, name, ty))
                        h.append('    %s* %s(size_t i) { return NthRule<%s>(i); }\n' % (ty, name, ty))
                    else:
                        h.append('    %s* %s() { return NthRule<%s>(0); }\n' % (ty, name, ty))
            toks = [(i, l) for i, (l, c) in enumerate(ltypes[r[0]].items()) if not c]
            ctxs = [(i, l, c) for i, (l, c) in enumerate(ltypes[r[0]].items()) if c]
            h.append('    void SetLabel(int i, antlr4::Token* t) override {\n      (void)i; (void)t;\n')
            for i, l in toks:
                h.append('      if (i == %d) %s = t;\n' % (i, l))
            h.append('    }\n    void SetLabel(int i, antlr4::ParserRuleContext* c) override;\n')
            h.append('  };\n')
        for i, r in enumerate(self.prules):
            h.append('  %sContext* %s() { return static_cast<%sContext*>(Run(%d)); }\n' % (cap(r[0]), r[0], cap(r[0]), i))
        h.append(' protected:\n  std::unique_ptr<antlr4::ParserRuleContext> Make(int rule) override {\n    switch (rule) {\n')
        for i, r in enumerate(self.prules):
            h.append('      case %d: return std::make_unique<%sContext>();\n' % (i, cap(r[0])))
        h.append('    }\n    return nullptr;\n  }\n private:\n  static const antlr4::Grammar& G() {\n')
        h.append('    using E = antlr4::GElem;\n    static const antlr4::Grammar* g = new antlr4::Grammar{{\n')
        for k, a, l, p, kids in self.elems:
            h.append('{E::%s,%d,%d,%d,{%s}},\n' % (k, a, l, p, ','.join(map(str, kids))))
        h.append('}, {\n')
        for body, suf in grules:
            h.append('{%d,{%s}},\n' % (body, ','.join('{%d,%d,%d}' % s for s in suf)))
        h.append('}};\n    return *g;\n  }\n};\n')
        for r in self.prules:
            h.append('inline void %sParser::%sContext::SetLabel(int i, antlr4::ParserRuleContext* c) {\n  (void)i; (void)c;\n' % (n, cap(r[0])))
            for i, (l, c) in enumerate(ltypes[r[0]].items()):
                if c:
                    h.append('  if (i == %d) %s = static_cast<%sContext*>(c);\n' % (i, l, cap(c)))
            h.append('}\n')
        h.append(cl + '#endif\n')
        self.write(outdir, n + 'Parser.h', ''.join(h))

    @staticmethod
    def is_ref(e, name):
        return e == ('ref', name) or (e[0] == 'label' and e[2] == ('ref', name))

    def starts_with(self, alt, name):
        return bool(alt[1]) and self.is_ref(alt[1][0], name)

    @staticmethod
    def write(outdir, name, text):
        path = os.path.join(outdir, name)
        if not os.path.exists(path) or open(path).read() != text:
            with open(path, 'w') as f:
                f.write(text)


if __name__ == '__main__':
    Gen(sys.argv[1], sys.argv[2]).run(sys.argv[3])

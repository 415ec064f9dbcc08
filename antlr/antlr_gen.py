#!/usr/bin/env python3
"""Produce <G>Lexer.h / <G>Parser.h from an ANTLR 4 combined grammar.

A deliberately small stand-in for the ANTLR tool (absent here): it reads the
repository's own .g4 file and emits the context classes, with the accessors and
labels ANTLR would give them, over the runtime in antlr4-runtime/.
usage: antlr_gen.py GRAMMAR.g4 OUTDIR NAMESPACE
"""
import re, sys, os

# ---------------------------------------------------------------- g4 reader
TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/
 |(?P<str>'(?:\\.|[^'\\])*')
 |(?P<cset>\[(?:\\.|[^\]\\])*\])
 |(?P<id>[A-Za-z_][A-Za-z_0-9]*)
 |(?P<arrow>->)
 |(?P<op>\+=|[:;|()?*+~.=,\#{}])""", re.X | re.S)


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise SystemExit(f"g4: cannot read at {text[i:i+40]!r}")
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group()))
    out.append(('eof', ''))
    return out


def unq(s):
    return re.sub(r"\\(u[0-9a-fA-F]{4}|.)", lambda m: {
        'n': '\n', 'r': '\r', 't': '\t', 'f': '\f', 'b': '\b'}.get(
        m.group(1), chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == 'u' and
        len(m.group(1)) > 1 else m.group(1)), s)


class P:
    def __init__(s, t):
        s.t, s.i = t, 0

    def pk(s, o=0):
        return s.t[s.i + o]

    def nx(s):
        s.i += 1
        return s.t[s.i - 1]

    def ex(s, v):
        k = s.nx()
        if k[1] != v:
            raise SystemExit(f"g4: expected {v}, got {k}")

    def alts(s):
        r = [s.seq()]
        while s.pk()[1] == '|' and s.pk()[0] == 'op':
            s.nx()
            r.append(s.seq())
        return r[0] if len(r) == 1 else ('alt', r)

    def seq(s):
        r = []
        while True:
            k, v = s.pk()
            if k == 'eof' or k == 'arrow' or (k == 'op' and v in '|;)'):
                return ('seq', r)
            if k == 'op' and v == '#':
                s.nx(); s.nx()
                continue
            r.append(s.elem())

    def elem(s):
        label = None
        if s.pk()[0] == 'id' and s.pk(1)[1] in ('=', '+=') and s.pk(1)[0] == 'op':
            label = s.nx()[1]
            s.nx()
        a = s.atom()
        if label:
            a = ('label', label, a)
        while s.pk()[0] == 'op' and s.pk()[1] in '?*+':
            q = s.nx()[1]
            ng = s.pk() == ('op', '?') and q in '*+?'
            if ng:
                s.nx()
            a = ({'?': 'opt', '*': 'star', '+': 'plus'}[q], a, ng)
        return a

    def atom(s):
        k, v = s.nx()
        if k == 'str':
            return ('lit', unq(v[1:-1]))
        if k == 'cset':
            return ('cset', v[1:-1])
        if k == 'id':
            return ('ref', v)
        if v == '.':
            return ('any',)
        if v == '~':
            return ('not', s.atom())
        if v == '(':
            r = s.alts()
            s.ex(')')
            return r
        raise SystemExit(f"g4: unexpected {v!r}")


def read(path):
    p = P(tokens(open(path).read()))
    p.ex('grammar')
    name = p.nx()[1]
    p.ex(';')
    prules, lrules = [], []
    while p.pk()[0] != 'eof':
        frag = False
        if p.pk()[1] == 'fragment':
            frag = True
            p.nx()
        n = p.nx()[1]
        p.ex(':')
        body = p.alts()
        hidden = False
        if p.pk()[0] == 'arrow':
            p.nx()
            cmd = p.nx()[1]
            hidden = cmd in ('skip', 'channel')
            while p.pk()[1] != ';':
                p.nx()
        p.ex(';')
        if n[0].isupper():
            lrules.append((n, body, frag, hidden))
        else:
            prules.append((n, body))
    return name, prules, lrules


# ---------------------------------------------------------------- lexer DFA
ALL = (1 << 256) - 1


def cset(s):
    m, i, cs = 0, 0, []
    while i < len(s):
        if s[i] == '\\':
            cs.append(unq(s[i:i + 2])); i += 2
        elif s[i] == '-' and cs and i + 1 < len(s):
            hi = s[i + 1]
            for c in range(ord(cs[-1]), ord(hi) + 1):
                m |= 1 << c
            i += 2
        else:
            cs.append(s[i]); i += 1
    for c in cs:
        m |= 1 << ord(c)
    return m


class NFA:
    def __init__(s):
        s.eps, s.tr, s.ng = [], [], set()

    def st(s):
        s.eps.append([]); s.tr.append([])
        return len(s.eps) - 1

    def build(s, n, a, rules):
        k = n[0]
        if k == 'seq':
            for e in n[1]:
                a = s.build(e, a, rules)
            return a
        if k == 'alt':
            z = s.st()
            for e in n[1]:
                if e == ('seq', [('ref', 'EOF')]):
                    continue
                b = s.st()
                s.eps[a].append(b)
                s.eps[s.build(e, b, rules)].append(z)
            return z
        if k == 'lit':
            for c in n[1]:
                b = s.st()
                s.tr[a].append((1 << ord(c), b))
                a = b
            return a
        if k in ('cset', 'any', 'not'):
            m = s.mask(n, rules)
            b = s.st()
            s.tr[a].append((m, b))
            return b
        if k == 'ref':
            return s.build(rules[n[1]], a, rules)
        if k == 'opt':
            b = s.build(n[1], a, rules)
            z = s.st()
            s.eps[a].append(z); s.eps[b].append(z)
            return z
        if k in ('star', 'plus'):
            x = s.st()
            s.eps[a].append(x)
            b = s.build(n[1], x, rules)
            z = s.st()
            s.eps[b] += [x, z]
            if k == 'star':
                s.eps[x].append(z)
            return z
        raise SystemExit(f"g4 lexer: {n}")

    def mask(s, n, rules):
        if n[0] == 'cset':
            return cset(n[1])
        if n[0] == 'any':
            return ALL
        if n[0] == 'lit':
            return 1 << ord(n[1])
        if n[0] == 'not':
            return ALL & ~s.mask(n[1], rules)
        if n[0] == 'alt':
            m = 0
            for e in n[1]:
                m |= s.mask(e, rules)
            return m
        if n[0] == 'seq' and len(n[1]) == 1:
            return s.mask(n[1][0], rules)
        raise SystemExit(f"g4 set: {n}")


def nongreedy(n):
    if not isinstance(n, (tuple, list)):
        return False
    if isinstance(n, tuple) and n and n[0] in ('opt', 'star', 'plus') and n[2]:
        return True
    return any(nongreedy(x) for x in n)


def dfa(toks):
    """toks: [(type, body, rules)] in priority order."""
    nfa = NFA()
    start = nfa.st()
    acc, own, ngt = {}, {}, set()
    for ty, body, rules in toks:
        lo = len(nfa.eps)
        a = nfa.st()
        nfa.eps[start].append(a)
        z = nfa.build(body, a, rules)
        acc[z] = ty
        for q in range(lo, len(nfa.eps)):
            own[q] = ty
        if nongreedy(body):
            ngt.add(ty)

    def close(ss):
        todo, seen = list(ss), set(ss)
        while todo:
            for e in nfa.eps[todo.pop()]:
                if e not in seen:
                    seen.add(e); todo.append(e)
        done = {acc[q] for q in seen if q in acc and acc[q] in ngt}
        if done:
            seen = {q for q in seen if own.get(q) not in done or q in acc}
        return frozenset(seen)
    ids = {close([start]): 0}
    order, nxt, accept = [close([start])], [], []
    prio = {ty: i for i, (ty, _, _) in enumerate(toks)}
    i = 0
    while i < len(order):
        cur = order[i]
        i += 1
        a = [acc[q] for q in cur if q in acc]
        accept.append(min(a, key=lambda t: prio[t]) if a else 0)
        row = [-1] * 256
        edges = [e for q in cur for e in nfa.tr[q]]
        cache = {}
        for c in range(256):
            t = frozenset(d for m, d in edges if m >> c & 1)
            if not t:
                continue
            if t not in cache:
                k = close(t)
                if k not in ids:
                    ids[k] = len(order)
                    order.append(k)
                cache[t] = ids[k]
            row[c] = cache[t]
        nxt.append(row)
    return nxt, accept


# ---------------------------------------------------------------- emit
def main(path, out, ns):
    name, prules, lrules = read(path)
    ridx = {n: i for i, (n, _) in enumerate(prules)}
    frs = {n: b for n, b, f, h in lrules}
    # token types: implicit literals first, as ANTLR does
    named_lit = {}
    for n, b, f, h in lrules:
        if not f and b[0] == 'seq' and len(b[1]) == 1 and b[1][0][0] == 'lit':
            named_lit.setdefault(b[1][0][1], n)
    implicit = []

    def lits(n):
        if isinstance(n, tuple) and n and n[0] == 'lit':
            if n[1] not in named_lit and n[1] not in implicit:
                implicit.append(n[1])
            return
        if isinstance(n, (tuple, list)):
            for x in n:
                lits(x)
    for _, b in prules:
        lits(b)
    ttype = {}
    for i, l in enumerate(implicit):
        ttype["'" + l] = i + 1
    for n, b, f, h in lrules:
        if not f:
            ttype[n] = len(ttype) + 1
    toks = [(ttype["'" + l], ('lit', l), frs) for l in implicit]
    toks += [(ttype[n], b, frs) for n, b, f, h in lrules if not f]
    nxt, accept = dfa(toks)
    hidden = [0] * (len(ttype) + 1)
    for n, b, f, h in lrules:
        if not f and h:
            hidden[ttype[n]] = 1

    def tok_of(n):
        """token types of a token-set node, or None"""
        if n[0] == 'lit':
            return [ttype[named_lit[n[1]]] if n[1] in named_lit else ttype["'" + n[1]]]
        if n[0] == 'ref' and n[1] == 'EOF':
            return [-1]
        if n[0] == 'ref' and n[1] in ttype:
            return [ttype[n[1]]]
        if n[0] == 'seq' and len(n[1]) == 1:
            return tok_of(n[1][0])
        if n[0] == 'alt':
            r = [tok_of(e) for e in n[1]]
            return None if None in r else sum(r, [])
        return None
    # labels and accessor frequencies per rule
    hdr = []
    w = hdr.append
    nsp = ns.split('::')
    guard = f"VERIF_GEN_{name.upper()}"
    tn = {v: k for k, v in ttype.items() if not k.startswith("'")}

    def freq(n):
        k = n[0]
        if k == 'seq':
            r = {}
            for e in n[1]:
                for a, c in freq(e).items():
                    r[a] = min(2, r.get(a, 0) + c)
            return r
        if k == 'alt':
            r = {}
            for e in n[1]:
                for a, c in freq(e).items():
                    r[a] = max(r.get(a, 0), c)
            return r
        if k == 'opt':
            return freq(n[1])
        if k in ('star', 'plus'):
            return {a: 2 for a in freq(n[1])}
        if k == 'label':
            return freq(n[2])
        t = tok_of(n)
        if t is not None:
            r = {}
            for x in t:
                if x == -1:
                    r['EOF'] = 1
                elif x in tn:
                    r[tn[x]] = 1
            return r
        if k == 'ref' and n[1] in ridx:
            return {n[1]: 1}
        raise SystemExit(f"g4: unknown reference {n}")

    def labels(n, acc):
        if n[0] == 'label':
            t = tok_of(n[2])
            kind = ('tok',) if t is not None else ('rule', n[2][1])
            if n[1] in acc and acc[n[1]] != kind:
                raise SystemExit(f"g4: label {n[1]} has two types")
            acc[n[1]] = kind
            return
        if n[0] in ('seq', 'alt'):
            for e in n[1]:
                labels(e, acc)
        elif n[0] in ('opt', 'star', 'plus'):
            labels(n[1], acc)
    cc = lambda r: r[0].upper() + r[1:] + 'Context'
    with open(os.path.join(out, name + 'Lexer.h'), 'w') as f:
        f.write(f"""#ifndef {guard}_LEXER_H_
#define {guard}_LEXER_H_
#include "antlr4-runtime/antlr4-runtime.h"
namespace {ns} {{
class {name}Lexer : public antlr4::Lexer {{
 public:
  explicit {name}Lexer(antlr4::ANTLRInputStream* in)
      : antlr4::Lexer(in, {{kNext, kAccept, kHidden}}) {{}}
 private:
  static constexpr int16_t kNext[{len(nxt)}][256] = {{
""")
        for r in nxt:
            f.write('{' + ','.join(map(str, r)) + '},\n')
        f.write('};\n  static constexpr int16_t kAccept[] = {'
                + ','.join(map(str, accept)) + '};\n')
        f.write('  static constexpr uint8_t kHidden[] = {'
                + ','.join(map(str, hidden)) + '};\n')
        f.write(f"}};\n}}  // namespace\n#endif\n")
    w(f"#ifndef {guard}_PARSER_H_\n#define {guard}_PARSER_H_\n"
      f'#include "antlr4-runtime/antlr4-runtime.h"\nnamespace {ns} {{\n'
      f"class {name}Parser : public antlr4::Parser {{\n public:\n")
    w("  enum {\n")
    for k, v in ttype.items():
        w(f"    {'T__%d' % (v - 1) if k[0] == chr(39) else k} = {v},\n")
    w("  };\n  enum {\n")
    for n, i in ridx.items():
        w(f"    Rule{n[0].upper() + n[1:]} = {i},\n")
    w("  };\n")
    for n, _ in prules:
        w(f"  class {cc(n)};\n")
    lab = {}
    for n, b in prules:
        L = {}
        labels(b, L)
        lab[n] = L
        ids = {l: i for i, l in enumerate(L)}
        w(f"  class {cc(n)} : public antlr4::ParserRuleContext {{\n   public:\n"
          f"    {cc(n)}() : antlr4::ParserRuleContext({ridx[n]}) {{}}\n")
        for l, k in L.items():
            t = 'antlr4::Token' if k[0] == 'tok' else cc(k[1])
            w(f"    {t}* {l} = nullptr;\n")
        for a, c in freq(b).items():
            if a == 'EOF':
                w("    antlr4::tree::TerminalNode* EOF_() "
                  "{ return term(antlr4::Token::EOF_TYPE); }\n")
            elif a in ridx:
                if c > 1:
                    w(f"    std::vector<{cc(a)}*> {a}();\n"
                      f"    {cc(a)}* {a}(size_t i);\n")
                else:
                    w(f"    {cc(a)}* {a}();\n")
            elif c > 1:
                w(f"    std::vector<antlr4::tree::TerminalNode*> {a}() "
                  f"{{ return terms({ttype[a]}); }}\n"
                  f"    antlr4::tree::TerminalNode* {a}(size_t i) "
                  f"{{ return term({ttype[a]}, i); }}\n")
            else:
                w(f"    antlr4::tree::TerminalNode* {a}() "
                  f"{{ return term({ttype[a]}); }}\n")
        if L:
            w("    Val label(int i) const override;\n"
              "    void setLabel(int i, Val v) override;\n")
        w("  };\n")
    w(f"  explicit {name}Parser(antlr4::CommonTokenStream* ts) "
      ": antlr4::Parser(ts, grammar()) {}\n")
    for n, _ in prules:
        w(f"  {cc(n)}* {n}() {{ return static_cast<{cc(n)}*>(run({ridx[n]})); }}\n")
    w(" protected:\n  antlr4::ParserRuleContext* make(int r) override {\n"
      "    switch (r) {\n")
    for n, i in ridx.items():
        w(f"      case {i}: return new {cc(n)};\n")
    w("    }\n    return nullptr;\n  }\n private:\n"
      "  static const antlr4::Grammar* grammar();\n};\n")
    for n, b in prules:
        q = f"{name}Parser::{cc(n)}"
        for a, c in freq(b).items():
            if a in ridx:
                t = f"{name}Parser::{cc(a)}"
                if c > 1:
                    w(f"inline std::vector<{t}*> {q}::{a}() "
                      f"{{ return kids<{t}>({ridx[a]}); }}\n"
                      f"inline {t}* {q}::{a}(size_t i) "
                      f"{{ return kid<{t}>({ridx[a]}, i); }}\n")
                else:
                    w(f"inline {t}* {q}::{a}() {{ return kid<{t}>({ridx[a]}); }}\n")
        if lab[n]:
            w(f"inline antlr4::ParserRuleContext::Val {q}::label(int i) const "
              "{\n  switch (i) {\n")
            for i, (l, k) in enumerate(lab[n].items()):
                w(f"    case {i}: return {{" +
                  (f"{l}, nullptr" if k[0] == 'tok' else f"nullptr, {l}") + "};\n")
            w("  }\n  return {};\n}\n"
              f"inline void {q}::setLabel(int i, Val v) {{\n  switch (i) {{\n")
            for i, (l, k) in enumerate(lab[n].items()):
                w(f"    case {i}: {l} = " + ("v.t" if k[0] == 'tok' else
                  f"static_cast<{cc(k[1])}*>(v.c)") + "; break;\n")
            w("  }\n}\n")

    def node(n, L, label=-1):
        t = tok_of(n)
        if t is not None:
            return f"GNode{{GNode::kTok, {{{','.join(map(str, t))}}}, 0, {label}, {{}}, false, {{}}}}"
        k = n[0]
        if k == 'label':
            return node(n[2], L, list(L).index(n[1]))
        if k == 'ref':
            return f"GNode{{GNode::kRule, {{}}, {ridx[n[1]]}, {label}, {{}}, false, {{}}}}"
        kk = {'seq': 'kSeq', 'alt': 'kAlt', 'opt': 'kOpt', 'star': 'kStar',
              'plus': 'kPlus'}[k]
        sub = n[1] if k in ('seq', 'alt') else [n[1]]
        return (f"GNode{{GNode::{kk}, {{}}, 0, {label}, {{"
                + ',\n '.join(node(e, L) for e in sub) + "}, false, {}}")
    w(f"inline const antlr4::Grammar* {name}Parser::grammar() {{\n"
      "  using antlr4::GNode;\n  using antlr4::GRule;\n"
      "  static const antlr4::Grammar* g = [] {\n"
      "    static antlr4::Grammar gr;\n")
    for n, b in prules:
        L = lab[n]
        lbl = lambda e: list(L).index(e[1]) if e[0] == 'label' else -1
        core = lambda e: e[2] if e[0] == 'label' else e
        alts = b[1] if b[0] == 'alt' else [b]
        rec = [a for a in alts if a[1] and core(a[1][0]) == ('ref', n)]
        if not rec:
            w(f'    gr.rules.push_back(GRule{{"{n}", {node(b, L)}, false, {{}}, {{}}, false, {{}}, {{}}}});\n')
            continue
        prim, binary, prefix = [], [], []
        for i, a in enumerate(alts):
            prec = len(alts) - i
            s = a[1]
            if core(s[0]) == ('ref', n):
                if core(s[-1]) != ('ref', n) or len(s) < 3:
                    raise SystemExit("g4: unsupported left recursion")
                binary.append("{" + node(('seq', s[1:-1]), L) +
                              f", {lbl(s[0])}, {lbl(s[-1])}, {prec}}}")
            elif core(s[-1]) == ('ref', n) and len(s) > 1:
                prefix.append("{" + node(('seq', s[:-1]), L) +
                              f", {lbl(s[-1])}, {prec}}}")
            else:
                prim.append(a)
        body = prim[0] if len(prim) == 1 else ('alt', prim)
        w(f'    gr.rules.push_back(GRule{{"{n}", {node(body, L)}, true, '
          f"{{{','.join(binary)}}}, {{{','.join(prefix)}}}, false, {{}}, {{}}}});\n")
    w("    gr.init();\n    return &gr;\n  }();\n  return g;\n}\n"
      "}  // namespace\n#endif\n")
    with open(os.path.join(out, name + 'Parser.h'), 'w') as f:
        f.write(''.join(hdr))


if __name__ == '__main__':
    main(*sys.argv[1:4])

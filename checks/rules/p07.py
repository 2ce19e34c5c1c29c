"""P07: the grammar of the text format accepts what was reviewed."""
import os, re
from lib.pyconf import repo
from lib.report import Anchor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(?P<str>\^?"(?:\\.|[^"\\])*")|(?P<chr>\'(?:\\.|[^\'\\])\')|(?P<num>\d+)|(?P<id>[A-Za-z_]\w*)|(?P<op>\.\.|[-=_@$!&~|*+?(){},#\[\]])', re.S)


def tokens(s):
    out, k = [], 0
    while k < len(s):
        m = TOK.match(s, k)
        if not m:
            raise Anchor(f"grammar of the text format: {s[k:k + 20]!r}")
        k = m.end()
        if m.lastgroup:
            t = m.group()
            if m.lastgroup == "id" and t == "_" or t == "_":
                out.append(("op", "_"))
            else:
                out.append((m.lastgroup, t))
    return out


class Parser:
    def __init__(self, s):
        self.t, self.k = tokens(s), 0

    def peek(self):
        return self.t[self.k] if self.k < len(self.t) else (None, None)

    def take(self, v=None):
        x = self.peek()
        if v is not None and x[1] != v:
            raise Anchor(f"grammar of the text format: {v} expected, {x[1]} found")
        self.k += 1
        return x

    def grammar(self):
        out = {}
        while self.peek()[0]:
            name = self.take()[1]
            self.take("=")
            mod = ""
            while self.peek()[1] in ("_", "@", "$", "!"):
                mod = self.take()[1]
            self.take("{")
            if self.peek()[1] == "|":
                self.take()
            out[name] = (mod, self.choice())
            self.take("}")
        return out

    def choice(self):
        l = [self.seq()]
        while self.peek()[1] == "|":
            self.take()
            l.append(self.seq())
        if len(l) == 1:
            return l[0]
        return ("|",) + tuple(y for x in l for y in (x[1:] if x[0] == "|" else (x,)))

    def seq(self):
        l = [self.unary()]
        while self.peek()[1] == "~":
            self.take()
            l.append(self.unary())
        if len(l) == 1:
            return l[0]
        return ("~",) + tuple(y for x in l for y in (x[1:] if x[0] == "~" else (x,)))

    def unary(self):
        k, v = self.peek()
        if v in ("!", "&"):
            self.take()
            return (v, self.unary())
        if v == "(":
            self.take()
            x = self.choice()
            self.take(")")
        else:
            self.take()
            x = (k, v)
        while self.peek()[1] in ("*", "+", "?", "{"):
            o = self.take()[1]
            if o == "{":
                while self.peek()[1] != "}":
                    o += self.take()[1]
                self.take()
            x = (o, x)
        return x


def inline(e, g, only, depth=0):
    """rules without trace in the parse tree that the other side does not have are expanded"""
    if e[0] == "id":
        if e[1] in only and e[1] in g and g[e[1]][0] == "_" and depth < 8:
            return inline(g[e[1]][1], g, only, depth + 1)
        return e
    if e[0] in ("str", "chr"):
        return e
    l = [inline(x, g, only, depth) if isinstance(x, tuple) else x for x in e[1:]]
    if e[0] in ("|", "~"):
        l = [y for x in l for y in (x[1:] if isinstance(x, tuple) and x[0] == e[0] else (x,))]
    return (e[0],) + tuple(l)


def run(cur, rep):
    p = os.path.join(repo(), "hugr-model", "src", "v0", "ast", "hugr.pest")
    if not os.path.exists(p):
        raise Anchor("grammar of the text format")
    a = Parser(open(os.path.join(HERE, "spec", "hugr.pest")).read()).grammar()
    b = Parser(open(p).read()).grammar()
    for n in sorted(a):
        if n not in b:
            if a[n][0] != "_":
                rep.violation(f"grammar:{n}", "hugr-model/src/v0/ast/hugr.pest", f"the rule {n} is gone")
            continue
        x, y = inline(a[n][1], a, set(a) - set(b)), inline(b[n][1], b, set(b) - set(a))
        if a[n][0] != b[n][0] or x != y:
            rep.violation(f"grammar:{n}", "hugr-model/src/v0/ast/hugr.pest", f"the rule {n} of the text format accepts something else than the reviewed one",
                          [str(x)[:600], str(y)[:600]])
    rep.rule("text-grammar", "every rule of the text grammar accepts and keeps what the reviewed one does", len(a), 40)

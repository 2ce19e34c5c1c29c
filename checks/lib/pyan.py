"""Summaries of Python functions: for every path its condition, its result (or the
exception it raises) and its effects, over values written in terms of the
parameters.  Local names, the way loops and comprehensions are written, positional
or keyword arguments, helper functions and the order of independent statements do
not show."""
import ast, os, string

MAXP = 600


class TooBig(Exception):
    pass


def K(v):
    return ("k", type(v).__name__, repr(v))


NONE = K(None)
TRUE, FALSE = K(True), K(False)
BUILTIN_PURE = set("len isinstance list tuple str int float bool enumerate zip range any all sum min max sorted reversed dict set frozenset "
                   "repr type next iter id hash cast map filter getattr hasattr super print object bytes abs issubclass callable".split())
GENSINK = set("any all sum set dict list tuple sorted min max frozenset enumerate join extend update chain".split())
MUTATE = set("append extend add insert update".split())


class Mod:
    def __init__(self, name, path, src):
        self.name, self.path = name, path
        self.tree = ast.parse(src)
        self.imports, self.defs = {}, {}


class Func:
    def __init__(self, id, node, mod, cls):
        self.id, self.node, self.mod, self.cls = id, node, mod, cls

    @property
    def private(self):
        n = self.id.rsplit(".", 1)[1]
        return n.startswith("_") and not n.endswith("__")

    def decorators(self):
        return [ast.unparse(d) for d in self.node.decorator_list]


class Package:
    """all modules below a directory"""

    def __init__(self, root, pkg="hugr"):
        self.mods, self.funcs, self.classes, self.globals = {}, {}, {}, {}
        self.mros, self.rel, self.over = {}, {}, {}
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if not x.startswith((".", "__")))
            for f in sorted(fs):
                if f.endswith(".py") and f != "conftest.py":
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    name = pkg if rel == "__init__" else pkg + "." + rel
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    self.mods[name] = Mod(name, p, open(p).read())
        for m in self.mods.values():
            self.scan(m)
        self.by_method = {}
        for f in self.funcs.values():
            self.by_method.setdefault(f.node.name, []).append(f)
        self.canon_cache = {}
        self.effectful = self.find_effectful()

    def scan(self, m):
        def body(stmts):
            for s in stmts:
                if isinstance(s, ast.If):
                    body(s.body)
                    body(s.orelse)
                elif isinstance(s, ast.Try):
                    body(s.body)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        m.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ""
                    if s.level:
                        parts = m.name.split(".")
                        if not m.path.endswith("__init__.py"):
                            parts = parts[:-1]
                        parts = parts[:len(parts) - (s.level - 1)]
                        base = ".".join(parts + ([s.module] if s.module else []))
                    for a in s.names:
                        m.imports[a.asname or a.name] = base + "." + a.name
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.add(m, s, None)
                elif isinstance(s, ast.ClassDef):
                    self.klass(m, s, m.name)
                elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in ts:
                        if isinstance(t, ast.Name):
                            m.defs[t.id] = s
                            if s.value is not None:
                                self.globals[m.name + "." + t.id] = (m, s)
        body(m.tree.body)
        run = [s for s in m.tree.body if isinstance(s, (ast.For, ast.While, ast.With, ast.AugAssign, ast.Delete))
               or isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant)
               or isinstance(s, ast.Assign) and not all(isinstance(t, ast.Name) for t in s.targets)]
        if run:
            f = ast.parse("def module_body(): pass").body[0]
            f.body = run
            f.lineno = run[0].lineno
            self.add(m, f, None)

    def klass(self, m, c, pre):
        q = pre + "." + c.name
        self.classes[q] = (m, c)
        m.defs.setdefault(q[len(m.name) + 1:], c)
        if pre == m.name:
            m.defs[c.name] = c
        for s in c.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.add(m, s, q)
            elif isinstance(s, ast.ClassDef):
                self.klass(m, s, q)

    def add(self, m, s, cls):
        deco = [ast.unparse(d) for d in s.decorator_list]
        if any("overload" in d for d in deco):
            return
        q = (cls or m.name) + "." + s.name
        if any(d.endswith(".setter") for d in deco):
            q += "=setter"
        self.funcs[q] = Func(q, s, m, cls)
        if cls is None:
            m.defs[s.name] = s

    # ---- names
    def canon(self, name):
        if name in self.canon_cache:
            return self.canon_cache[name]
        self.canon_cache[name] = name
        r = name
        parts = name.split(".")
        for k in range(len(parts), 0, -1):
            mn = ".".join(parts[:k])
            if mn in self.mods:
                m = self.mods[mn]
                if k < len(parts) and parts[k] not in m.defs and parts[k] in m.imports:
                    r = self.canon(".".join([m.imports[parts[k]]] + parts[k + 1:]))
                break
        self.canon_cache[name] = r
        return r

    def lookup(self, m, name):
        """canonical name of a global seen from a module"""
        if name in m.defs:
            return m.name + "." + name
        if name in m.imports:
            return self.canon(m.imports[name])
        return name

    def bases(self, cls):
        if cls not in self.classes:
            return []
        m, c = self.classes[cls]
        out = []
        for b in c.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            t = ast.unparse(b)
            h = t.split(".")
            n = self.lookup(m, h[0])
            out.append(self.canon(".".join([n] + h[1:])))
        return out

    def mro(self, cls):
        if cls not in self.mros:
            out = self.mros[cls] = [cls]
            for b in self.bases(cls):
                out += [x for x in self.mro(b) if x not in out]
        return self.mros[cls]

    def subclass(self, a, b):
        return b in self.mro(a)

    def related(self, a, b):
        """may one object be an instance of both?"""
        if (a, b) not in self.rel:
            self.rel[a, b] = self.related_(a, b)
        return self.rel[a, b]

    def related_(self, a, b):
        if self.subclass(a, b) or self.subclass(b, a):
            return True
        if a in self.classes and b in self.classes:
            pro = ("Protocol", "typing.Protocol")
            if any(x in self.mro(y) for x in pro for y in (a, b)):
                return True
            return any(self.subclass(c, a) and self.subclass(c, b) for c in self.classes)
        return a not in ("str", "int", "list", "dict", "float", "bytes", "tuple", "set") or b not in (
            "str", "int", "list", "dict", "float", "bytes", "tuple", "set")

    def method(self, cls, name):
        for c in self.mro(cls):
            f = self.funcs.get(c + "." + name)
            if f:
                return f
        return None

    def overridden(self, cls, name):
        k = (cls, name)
        if k not in self.over:
            self.over[k] = any(c != cls and c + "." + name in self.funcs and self.subclass(c, cls) for c in self.classes)
        return self.over[k]

    def fields(self, cls):
        """names of the constructor parameters, with defaults"""
        m_, c_ = self.classes.get(cls, (None, None))
        if c_ is None:
            return None
        init = self.method(cls, "__init__")
        isdc = any("dataclass" in ast.unparse(d) for d in c_.decorator_list)
        if init and not isdc:
            return params(init.node)[1:]
        out = {}
        for k in reversed(self.mro(cls)):
            if k not in self.classes:
                continue
            for s in self.classes[k][1].body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.unparse(s.annotation):
                    out[s.target.id] = s.value
        return [(n, "p", d) for n, d in out.items()] or None

    def init_params(self, cls):
        """parameters of the constructor, with defaults"""
        for k in self.mro(cls):
            if k not in self.classes:
                continue
            c = self.classes[k][1]
            for s in c.body:
                if isinstance(s, ast.FunctionDef) and s.name == "__init__":
                    return params(s)[1:]
            if any("dataclass" in ast.unparse(d) for d in c.decorator_list):
                return self.fields(k)
        return self.fields(cls)

    def find_effectful(self):
        direct, calls = set(), {}
        for f in self.funcs.values():
            n = f.node.name
            cs = calls.setdefault(n, set())
            for x in ast.walk(f.node):
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                    g = x.value.func
                    if isinstance(g, ast.Attribute) and g.attr not in MUTATE:
                        direct.add(g.attr)
                ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(
                    x, (ast.AugAssign, ast.AnnAssign)) else []
                if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in ts) and n not in ("__init__", "__post_init__"):
                    direct.add(n)
                if isinstance(x, ast.Call):
                    g = x.func
                    cs.add(g.attr if isinstance(g, ast.Attribute) else getattr(g, "id", ""))
        direct |= {"pop", "popitem", "remove", "clear", "setdefault", "discard"}
        while True:
            more = {n for n, cs in calls.items() if n not in direct and n != "__init__" and cs & direct}
            if not more:
                return direct
            direct |= more


def params(node):
    a = node.args
    ps = [(x.arg, "p", None) for x in a.posonlyargs + a.args]
    for i, d in enumerate(a.defaults):
        j = len(ps) - len(a.defaults) + i
        ps[j] = (ps[j][0], "p", d)
    if a.vararg:
        ps.append((a.vararg.arg, "*", None))
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        ps.append((x.arg, "k", d))
    if a.kwarg:
        ps.append((a.kwarg.arg, "**", None))
    return ps


class St:
    __slots__ = ("env", "conds", "effs", "heap", "epoch", "exit", "depth", "stop")

    def __init__(self, env, depth=0):
        self.env, self.conds, self.effs, self.heap, self.epoch, self.exit, self.depth = env, (), (), {}, {}, None, depth

    def copy(self):
        s = St(dict(self.env), self.depth)
        s.conds, s.effs, s.heap, s.epoch, s.exit = self.conds, self.effs, self.heap, self.epoch, self.exit
        return s


class Closure:
    def __init__(self, node, mod, cls, env):
        self.node, self.mod, self.cls, self.env = node, mod, cls, env


def owned(v):
    return isinstance(v, tuple) and (v[0] in ("list", "dict", "set") or v[0] == "cv" and owned(v[1]) or v[0] == "push" and owned(v[1])
                                     or v[0] == "comp" and v[1] in ("list", "dict", "set"))


def strip_at(v):
    while isinstance(v, tuple) and v and v[0] == "at":
        v = v[2]
    return v


class Exec:
    def __init__(self, pk, inline=lambda f: False):
        self.pk, self.inline = pk, inline
        self.stack = []
        self.used = set()

    # ---- entry
    def summary(self, f):
        env = {}
        ps = params(f.node)
        first = f.cls is not None and not any("staticmethod" in d for d in f.decorators())
        for i, (n, k, d) in enumerate(ps):
            env[n] = ("self",) if first and i == 0 else ("p", i if f.private else n)
        outs = self.body(f, env, 0)
        res = []
        for s in outs:
            e = s.exit or ("return", NONE)
            res.append((frozenset(s.conds), e, self.effects(s.effs)))
        if generator(f.node) and all(e == ("return", NONE) and len(g) <= 1 and all(
                k == ("yield",) and len(v) == 1 and v[0][0] == "yieldfrom" for k, v in g) for c, e, g in res):
            # a generator that yields what one iterable has
            res = [(c, ("return", list(g)[0][1][0][1] if g else ("tuple", ())), frozenset()) for c, e, g in res]
        return res

    def body(self, f, env, depth, st=None):
        self.mod, self.cls = f.mod, f.cls
        self.stack.append(f.id)
        s = St(env, depth)
        if st is not None:
            s.conds, s.effs, s.heap, s.epoch = st.conds, st.effs, st.heap, st.epoch
        try:
            return self.block(f.node.body, [s])
        finally:
            self.stack.pop()

    @staticmethod
    def effects(effs):
        """effects on different things may happen in any order; calls that are also used as values count once"""
        g = {}
        for k, e in effs:
            l = g.setdefault(k, [])
            if e[0] != "called" or e not in l:
                l.append(e)
        return frozenset((k, tuple(v)) for k, v in g.items())

    # ---- statements
    def block(self, stmts, sts):
        for s in stmts:
            live = [x for x in sts if x.exit is None]
            if not live:
                break
            sts = [x for x in sts if x.exit is not None]
            for x in live:
                sts += self.stmt(s, x)
            if len(sts) > MAXP:
                raise TooBig()
        return sts

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise TooBig("statement " + type(s).__name__)
        return m(s, st)

    def s_Pass(self, s, st):
        return [st]

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_ImportFrom(self, s, st):
        st = st.copy()
        base = s.module or ""
        if s.level:
            parts = self.mod.name.split(".")
            if not self.mod.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            st.env[a.asname or a.name] = ("g", self.pk.canon(base + "." + a.name))
        return [st]

    def s_Import(self, s, st):
        st = st.copy()
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = ("g", a.name if a.asname else a.name.split(".")[0])
        return [st]

    def s_Expr(self, s, st):
        v = s.value
        if isinstance(v, ast.Constant):
            return [st]
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            out = []
            for x, val in (self.ev(v.value, st) if v.value else [(st, NONE)]):
                if x.exit is None:
                    x = x.copy()
                    x.effs += ((("yield",), ("yield" if isinstance(v, ast.Yield) else "yieldfrom", val)),)
                out.append(x)
            return out
        out = []
        for x, val in self.ev(v, st, stmt=True):
            out.append(x)
        return out

    def s_Assign(self, s, st):
        out = []
        for x, v in self.ev(s.value, st):
            if x.exit is None:
                ys = [x]
                for t in s.targets:
                    ys = [z for y in ys for z in self.assign(t, v, y)]
                out += ys
            else:
                out.append(x)
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [st]
        return self.s_Assign(ast.Assign(targets=[s.target], value=s.value), st)

    def s_AugAssign(self, s, st):
        out = []
        load = ast.copy_location(as_load(s.target), s.target)
        for x, a in self.ev(load, st):
            for y, b in self.ev(s.value, x) if x.exit is None else [(x, None)]:
                if y.exit is not None:
                    out.append(y)
                    continue
                if isinstance(s.op, ast.Add) and owned(a) and isinstance(s.target, ast.Name):
                    out += self.assign(s.target, push(a, ("star", b)), y)
                else:
                    out += self.assign(s.target, binop(type(s.op).__name__, a, b), y)
        return out

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st = st.copy()
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            sts = [st]
            n = len(t.elts)
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            for i, e in enumerate(t.elts):
                if star is None or i < star:
                    w = sub(v, K(i))
                elif i == star:
                    w = ("slice", v, star, n - 1 - star)
                    e = e.value
                else:
                    w = sub(v, K(i - n))
                sts = [y for x in sts for y in self.assign(e, w, x)]
            return sts
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.ev(t.value, st):
                if x.exit is None:
                    x = x.copy()
                    x.heap = dict(x.heap)
                    x.heap[(strip_at(b), t.attr)] = v
                    key = ("set", strip_at(b), t.attr)
                    x.effs = tuple(e for e in x.effs if e[0] != key) + ((key, ("set", v)),)
                out.append(x)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, b in self.ev(t.value, st):
                for y, i in self.ev(t.slice, x) if x.exit is None else [(x, None)]:
                    if y.exit is None:
                        if owned(b) and isinstance(t.value, ast.Name):
                            y = y.copy()
                            y.env[t.value.id] = push(b, ("kv", i, v))
                        else:
                            y = self.effect(y, b, ("setitem", i, v))
                    out.append(y)
            return out
        raise TooBig("target " + type(t).__name__)

    def effect(self, st, recv, e):
        st = st.copy()
        k = strip_at(recv)
        st.effs += ((("on", k), e),)
        st.epoch = dict(st.epoch)
        st.epoch[k] = st.epoch.get(k, 0) + 1
        return st

    def s_Delete(self, s, st):
        sts = [st]
        for t in s.targets:
            nxt = []
            for x in sts:
                if isinstance(t, ast.Subscript):
                    for y, b in self.ev(t.value, x):
                        for z, i in self.ev(t.slice, y) if y.exit is None else [(y, None)]:
                            nxt.append(self.effect(z, b, ("delitem", i)) if z.exit is None else z)
                elif isinstance(t, ast.Attribute):
                    for y, b in self.ev(t.value, x):
                        nxt.append(self.effect(y, b, ("delattr", t.attr)) if y.exit is None else y)
                else:
                    nxt.append(x)
            sts = nxt
        return sts

    def s_Return(self, s, st):
        out = []
        for x, v in (self.ev(s.value, st) if s.value is not None else [(st, NONE)]):
            if x.exit is None:
                x = x.copy()
                x.exit = ("return", self.freeze(v, x))
            out.append(x)
        return out

    def s_Raise(self, s, st):
        out = []
        for x, v in (self.ev(s.exc, st) if s.exc is not None else [(st, ("reraise",))]):
            if x.exit is None:
                x = x.copy()
                x.exit = ("raise", exc(v))
            out.append(x)
        return out

    def s_Assert(self, s, st):
        out = []
        for x, b in self.cond(s.test, st):
            if not b and x.exit is None:
                x = x.copy()
                x.exit = ("raise", ("g", "AssertionError"))
            out.append(x)
        return out

    def s_If(self, s, st):
        if isinstance(s.test, ast.Name) and s.test.id == "TYPE_CHECKING":
            return [st]
        a, b = [], []
        for x, t in self.cond(s.test, st):
            (a if t else b).append(x)
        return self.block(s.body, a) + self.block(s.orelse, b)

    def s_Break(self, s, st):
        st = st.copy()
        st.exit = ("break",)
        return [st]

    def s_Continue(self, s, st):
        st = st.copy()
        st.exit = ("continue",)
        return [st]

    def s_FunctionDef(self, s, st):
        st = st.copy()
        c = Closure(s, self.mod, self.cls, None)
        st.env[s.name] = c
        c.env = st.env
        return [st]

    def s_ClassDef(self, s, st):
        raise TooBig("class in function")

    def s_With(self, s, st):
        sts = [st]
        for it in s.items:
            nxt = []
            for x in sts:
                for y, v in self.ev(it.context_expr, x):
                    if y.exit is None:
                        y = self.effect(y, ("with",), ("with", v))
                        nxt += self.assign(it.optional_vars, ("enter", v), y) if it.optional_vars is not None else [y]
                    else:
                        nxt.append(y)
            sts = nxt
        return self.block(s.body, sts)

    def s_Try(self, s, st):
        names = set()
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Call):
                    f = x.func
                    names.add(f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "?"))
                elif isinstance(x, ast.Subscript):
                    names.add("[]")
                elif isinstance(x, ast.Attribute):
                    names.add("." + x.attr)
        names = frozenset(n for n in names if not n.startswith(".")) or frozenset(names)
        out = []
        types = []
        for h in s.handlers:
            hs = st.copy()
            ts = self.ev(h.type, st)[0][1] if h.type is not None else ("g", "BaseException")
            ts = ts[1] if isinstance(ts, tuple) and ts[0] == "tuple" else (ts,)
            types.append(ts)
            atom = ("exc", tuple(sorted(map(str, ts))), names)
            if not self.add_cond(hs, atom, True):
                continue
            if h.name:
                hs.env[h.name] = ("caught",)
            out += self.block(h.body, [hs])
        ok = st.copy()
        for ts in types:
            self.add_cond(ok, ("exc", tuple(sorted(map(str, ts))), names), False)
        body = self.block(s.body, [ok])
        # an exception raised explicitly in the body and caught by one of the handlers
        res = []
        for x in body:
            res.append(x)
        body = self.block(s.orelse, [x for x in res if x.exit is None]) + [x for x in res if x.exit is not None]
        out += body
        if s.finalbody:
            fin = []
            for x in out:
                e = x.exit
                y = x.copy()
                y.exit = None
                for z in self.block(s.finalbody, [y]):
                    if z.exit is None:
                        z.exit = e
                    fin.append(z)
            out = fin
        return out

    # ---- loops
    def carried(self, stmts, st):
        names = []
        for s in stmts:
            for x in ast.walk(s):
                n = None
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    n = x.id
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and (
                        x.func.attr in MUTATE) and owned(st.env.get(x.func.value.id)):
                    n = x.func.value.id
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and owned(
                        st.env.get(x.value.id)):
                    n = x.value.id
                if n and n not in names and n in st.env:
                    names.append(n)
        return names

    def loop(self, src, target, body, orelse, st, wcond=None):
        d = st.depth + 1
        carried = self.carried(body, st)
        inner = St(dict(st.env), d)
        inner.heap = dict(st.heap)
        inner.epoch = dict(st.epoch)
        ph, cnt = {}, {}
        for n in carried:
            init = st.env[n]
            if isinstance(init, Closure):
                continue
            k = cnt.get(init, 0)
            cnt[init] = k + 1
            ph[n] = ("cv", init, d, k)
            inner.env[n] = ph[n]
        starts = [inner]
        if target is not None:
            starts = self.assign(target, ("bv", d), inner)
        ends = []
        if wcond is not None:
            for x in starts:
                for y, b in self.cond(wcond, x):
                    if not b:
                        y = y.copy()
                        y.exit = y.exit or ("break",)
                    ends.append(y)
            go = [x for x in ends if x.exit is None]
            ends = [x for x in ends if x.exit is not None]
            ends += self.block(body, go)
        else:
            ends = self.block(body, starts)
        # loops that only build containers are comprehensions
        after = st.copy()
        leave = []
        iters = []
        for x in ends:
            c = frozenset(x.conds)
            e = x.exit
            if e and e[0] in ("return", "raise"):
                leave.append((c, e, x))
            else:
                iters.append((c, e, x))
        effs = set()
        for c, e, x in iters:
            effs.add((c, self.effects(x.effs), e == ("break",)))
        if not any(f for _, f, _ in effs):
            effs = set()
        out = []
        if leave:
            table = frozenset((c, e if e and e[0] in ("return", "raise") else ("next",), self.effects(x.effs))
                              for c, e, x in leave + iters)
            done = []
            for c, e, x in leave:
                f = self.effects(x.effs)
                if (e, f) in done:
                    continue
                done.append((e, f))
                y = st.copy()
                atom = ("some", src, table, e, f)
                y.conds += ((atom, True),)
                y.exit = e
                out.append(y)
                after.conds += ((atom, False),)
        simple_yield = all(all(k == ("yield",) for k, _ in f) for _, f, _ in effs)
        if effs:
            if simple_yield and not any(b for _, _, b in effs):
                cases = frozenset((c, tuple(g[1] if g[0] == "yield" else ("star", g[1]) for g in dict(f).get(("yield",), ())))
                                  for c, e, x in iters for f in [self.effects(x.effs)])
                after.effs += ((("yield",), ("yieldfrom", comp("gen", src, cases))),)
            else:
                after.effs += ((("for", src), ("for", frozenset(effs))),)
        anybreak = any(e == ("break",) for _, e, _ in iters) and wcond is None
        for n, p in ph.items():
            cases = frozenset((c, self.freeze(x.env.get(n), x), e == ("break",)) for c, e, x in iters)
            if all(v == p for _, v, _ in cases):
                after.env[n] = st.env[n]
                continue
            init = p[1]
            g = []
            good = owned(init) and not anybreak and wcond is None
            for c, v, b in cases:
                ys = []
                while good and isinstance(v, tuple) and v[0] == "push":
                    ys.append(v[2])
                    v = v[1]
                good = good and v == p
                g.append((c, tuple(reversed(ys))))
            if good and not any(refers(y, p) for _, ys in g for y in ys):
                after.env[n] = push(init, ("star", comp("gen", src, frozenset(g))))
            else:
                after.env[n] = ("after", src, init, cases)
        # names bound for the first time in the loop
        for c, e, x in iters:
            for n in x.env:
                if n not in st.env:
                    after.env[n] = ("last", src, frozenset((c2, self.freeze(x2.env.get(n), x2)) for c2, e2, x2 in iters))
        for (b, a), v in [(k, v) for c, e, x in iters for k, v in x.heap.items() if st.heap.get(k) != v]:
            after.heap = dict(after.heap)
            after.heap.pop((b, a), None)
        out += self.block(orelse, [after]) if orelse else [after]
        return out

    def s_For(self, s, st):
        out = []
        for x, v in self.ev(s.iter, st):
            out += self.loop(seq(v), s.target, s.body, s.orelse, x) if x.exit is None else [x]
        return out

    def s_While(self, s, st):
        return self.loop(("while",), None, s.body, s.orelse, st, s.test)

    # ---- match
    def s_Match(self, s, st):
        out = []
        for x, v in self.ev(s.subject, st):
            if x.exit is not None:
                out.append(x)
                continue
            rest = [x]
            for c in s.cases:
                nxt = []
                for y in rest:
                    for z, b in self.pattern(c.pattern, v, y):
                        if b and c.guard is not None:
                            for w, g in self.cond(c.guard, z):
                                if g:
                                    out += self.block(c.body, [w])
                                else:
                                    nxt.append(w)
                        elif b:
                            out += self.block(c.body, [z])
                        else:
                            nxt.append(z)
                rest = nxt
            out += rest
        return out

    def pattern(self, p, v, st):
        """[(state, matched)]"""
        if isinstance(p, ast.MatchAs):
            rs = self.pattern(p.pattern, v, st) if p.pattern is not None else [(st, True)]
            out = []
            for x, b in rs:
                if b and p.name:
                    x = x.copy()
                    x.env[p.name] = v
                out.append((x, b))
            return out
        if isinstance(p, ast.MatchValue):
            out = []
            for x, w in self.ev(p.value, st):
                out += self.atom(eq(v, w), x)
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.atom(("is", v, K(p.value)), st)
        if isinstance(p, ast.MatchOr):
            out, rest = [], [st]
            for q in p.patterns:
                nxt = []
                for x in rest:
                    for y, b in self.pattern(q, v, x):
                        (out if b else nxt).append((y, b) if b else y)
                rest = nxt
            return out + [(x, False) for x in rest]
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, st)[0][1]
            name = cls[1] if cls[0] == "g" else str(cls)
            subs = []
            if p.patterns:
                if name in ("str", "int", "float", "bytes", "bool", "list", "dict", "tuple", "set"):
                    subs.append((v, p.patterns[0]))
                else:
                    fs = self.pk.fields(name) or []
                    for i, q in enumerate(p.patterns):
                        subs.append((("attr", v, fs[i][0] if i < len(fs) else f"#{i}"), q))
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                subs.append((("attr", v, a), q))
            return self.patall([(("isa", v, name), None)], subs, st)
        if isinstance(p, ast.MatchSequence):
            n = len(p.patterns)
            star = next((i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)), None)
            w = strip_at(v)
            if w[0] in ("tuple", "list") and not any(e[0] == "star" for e in w[1]):
                if star is None and len(w[1]) != n or star is not None and len(w[1]) < n - 1:
                    return [(st, False)]
                atoms = []
            else:
                atoms = [(("seqlen", v, n) if star is None else ("seqmin", v, n - 1), None)]
            subs = []
            for i, q in enumerate(p.patterns):
                if star is None or i < star:
                    subs.append((sub(v, K(i)), q))
                elif i == star:
                    if q.name:
                        subs.append((("slice", v, star, n - 1 - star), ast.MatchAs(pattern=None, name=q.name)))
                else:
                    subs.append((sub(v, K(i - n)), q))
            return self.patall(atoms, subs, st)
        if isinstance(p, ast.MatchMapping):
            atoms = [(("isa", v, "dict"), None)]
            subs = []
            for k, q in zip(p.keys, p.patterns):
                kv = self.ev(k, st)[0][1]
                atoms.append((("in", kv, v), None))
                subs.append((sub(v, kv), q))
            return self.patall(atoms, subs, st)
        raise TooBig("pattern " + type(p).__name__)

    def patall(self, atoms, subs, st):
        out, good = [], [st]
        for a, _ in atoms:
            nxt = []
            for x in good:
                for y, b in self.atom(a, x):
                    nxt.append(y) if b else out.append((y, False))
            good = nxt
        for w, q in subs:
            nxt = []
            for x in good:
                for y, b in self.pattern(q, w, x):
                    nxt.append(y) if b else out.append((y, False))
            good = nxt
        return out + [(x, True) for x in good]

    # ---- conditions
    def add_cond(self, st, atom, b):
        for a, c in st.conds:
            if a == atom:
                return c == b
        if b and contradicts(self.pk, atom, st.conds):
            return False
        if not b and implied(self.pk, atom, st.conds):
            return False
        st.conds += ((atom, b),)
        return True

    def atom(self, a, st):
        if a == TRUE or a == ("true", TRUE):
            return [(st, True)]
        if a in (FALSE, ("true", FALSE), ("true", NONE)):
            return [(st, False)]
        if a[0] == "not":
            return [(x, not b) for x, b in self.atom(a[1], st)]
        if a[0] == "true":
            v = a[1]
            if v[0] == "k":
                return [(st, bool(ast.literal_eval(v[2])))]
            if v[0] in ("list", "tuple", "dict", "set"):
                if not v[1]:
                    return [(st, False)]
                if not any(e[0] == "star" for e in v[1]):
                    return [(st, True)]
            if v[0] in ("eq", "is", "isa", "lt", "in"):
                return self.atom(v, st)
            if v[0] == "not":
                return [(x, not b) for x, b in self.atom(("true", v[1]), st)]
        if a[0] in ("eq", "is") and a[1][0] == "k" and a[2][0] == "k":
            return [(st, a[1] == a[2])]
        if a[0] == "is" and a[2] == NONE and a[1][0] in ("list", "tuple", "dict", "fstr", "comp"):
            return [(st, False)]
        out = []
        for b in (True, False):
            x = st.copy()
            if self.add_cond(x, a, b):
                out.append((x, b))
        return out

    def cond(self, e, st):
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            out, live = [], [st]
            for i, v in enumerate(e.values):
                nxt = []
                for x in live:
                    for y, b in self.cond(v, x):
                        if y.exit is not None:
                            out.append((y, b))
                        elif b == stop:
                            out.append((y, stop))
                        else:
                            nxt.append(y)
                live = nxt
            return out + [(x, not stop) for x in live]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not b) for x, b in self.cond(e.operand, st)]
        if isinstance(e, ast.IfExp):
            out = []
            for x, b in self.cond(e.test, st):
                out += self.cond(e.body if b else e.orelse, x)
            return out
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            parts, l = [], e.left
            for o, r in zip(e.ops, e.comparators):
                parts.append(ast.Compare(left=l, ops=[o], comparators=[r]))
                l = r
            return self.cond(ast.BoolOp(op=ast.And(), values=parts), st)
        out = []
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            for x, v in self.ev(e.args[0], st):
                for y, c in self.ev(e.args[1], x) if x.exit is None else [(x, None)]:
                    if y.exit is not None:
                        out.append((y, False))
                        continue
                    cs = alternatives(c)
                    rest = [y]
                    for k in cs:
                        nxt = []
                        for z in rest:
                            for w, b in self.atom(("isa", v, k[1] if k[0] == "g" else str(k)), z):
                                out.append((w, True)) if b else nxt.append(w)
                        rest = nxt
                    out += [(z, False) for z in rest]
            return out
        for x, v in self.ev(e, st):
            if x.exit is not None:
                out.append((x, False))
            else:
                out += self.atom(truth(self.freeze(v, x)), x)
        return out

    # ---- expressions
    def ev(self, e, st, stmt=False):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise TooBig("expression " + type(e).__name__)
        if isinstance(e, ast.Call):
            return m(e, st, stmt)
        return m(e, st)

    def many(self, es, st):
        """[(state, tuple of values)]"""
        out = [(st, ())]
        for e in es:
            nxt = []
            for x, vs in out:
                if x.exit is not None:
                    nxt.append((x, vs))
                    continue
                if isinstance(e, ast.Starred):
                    for y, v in self.ev(e.value, x):
                        v = self.freeze(v, y) if v is not None else NONE
                        if v[0] in ("list", "tuple"):
                            nxt.append((y, vs + v[1]))
                        else:
                            nxt.append((y, vs + (("star", seq(v)),)))
                else:
                    for y, v in self.ev(e, x):
                        nxt.append((y, vs + (self.freeze(v, y) if v is not None else NONE,)))
            out = nxt
            if len(out) > MAXP:
                raise TooBig()
        return out

    def freeze(self, v, st):
        """turn functions defined here into values"""
        if isinstance(v, Closure):
            return self.closure_value(v, st)
        return v

    def closure_value(self, c, st):
        d = st.depth + 1
        env = dict(c.env)
        ps = params(c.node)
        for i, (n, k, _) in enumerate(ps):
            env[n] = sub(("bv", d), K(i)) if len(ps) > 1 else ("bv", d)
        s = St(env, d)
        if isinstance(c.node, ast.Lambda):
            outs = []
            for x, v in self.ev(c.node.body, s):
                if x.exit is None:
                    x = x.copy()
                    x.exit = ("return", self.freeze(v, x))
                outs.append(x)
        else:
            if c.node.name in self.stack:
                return ("rec",)
            self.stack.append(c.node.name)
            outs = self.block(c.node.body, [s])
            self.stack.pop()
        return ("lambda", len(ps), frozenset((frozenset(x.conds), x.exit or ("return", NONE), self.effects(x.effs)) for x in outs))

    def e_Constant(self, e, st):
        return [(st, K(e.value))]

    def e_Name(self, e, st):
        if e.id in st.env:
            v = st.env[e.id]
            if isinstance(v, tuple) and v in st.epoch:
                v = ("at", st.epoch[v], v)
            return [(st, v)]
        n = self.pk.lookup(self.mod, e.id)
        return [(st, ("g", n))]

    def e_NamedExpr(self, e, st):
        out = []
        for x, v in self.ev(e.value, st):
            if x.exit is None:
                x = x.copy()
                x.env[e.target.id] = v
            out.append((x, v))
        return out

    def e_Attribute(self, e, st):
        out = []
        for x, b in self.ev(e.value, st):
            out.append((x, self.getattr(x, b, e.attr) if x.exit is None else None))
        return self.props(out, e.attr)

    def getattr(self, st, b, a):
        b = self.freeze(b, st)
        w = strip_at(b)
        if w[0] == "g":
            n = w[1] + "." + a
            if w[1] in self.pk.mods or w[1] not in self.pk.classes:
                return ("g", self.pk.canon(n))
        if (w, a) in st.heap:
            return st.heap[(w, a)]
        if w[0] == "call" and w[1][0] == "g" and w[1][1] in self.pk.classes:
            kw = dict(w[3])
            if a in kw and self.plain_field(w[1][1], a):
                return kw[a]
        v = ("attr", b, a)
        if ("attr", w, a) in st.epoch:
            v = ("at", st.epoch[("attr", w, a)], v)
        return v

    def plain_field(self, cls, a):
        _, c = self.pk.classes[cls]
        return self.pk.method(cls, "__init__") is None and self.pk.method(cls, "__post_init__") is None

    def props(self, rs, a):
        """inline properties where asked to"""
        out = []
        for x, v in rs:
            if x.exit is None and v and v[0] == "attr" and strip_at(v[1]) == ("self",) and self.cls:
                f = self.pk.method(self.cls, a)
                if f and any("property" in d for d in f.decorators()) and self.inline(f) and f.id not in self.stack and len(self.stack) < 8:
                    out += self.call_inline(f, {params(f.node)[0][0]: ("self",)}, x)
                    continue
            out.append((x, v))
        return out

    def e_Subscript(self, e, st):
        out = []
        for x, b in self.ev(e.value, st):
            if x.exit is not None:
                out.append((x, None))
                continue
            for y, i in self.ev(e.slice, x):
                if y.exit is not None:
                    out.append((y, None))
                    continue
                b2 = self.freeze(b, y)
                if b2[0] == "g" and b2[1] in ("list", "dict", "set", "tuple", "cast", "Sequence", "typing.cast"):
                    out.append((y, b2))
                else:
                    out.append((y, sub(b2, i)))
        return out

    def e_Slice(self, e, st):
        parts = [x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper, e.step)]
        return [(x, ("slc",) + vs if x.exit is None else None) for x, vs in self.many(parts, st)]

    def e_BinOp(self, e, st):
        out = []
        for x, vs in self.many([e.left, e.right], st):
            out.append((x, binop(type(e.op).__name__, *vs) if x.exit is None else None))
        return out

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(x, K(b)) for x, b in self.cond(e, st)]
        out = []
        for x, v in self.ev(e.operand, st):
            if x.exit is None and v[0] == "k" and isinstance(e.op, ast.USub):
                v = K(-ast.literal_eval(v[2]))
            else:
                v = ("un", type(e.op).__name__, v)
            out.append((x, v))
        return out

    def e_BoolOp(self, e, st):
        stop = isinstance(e.op, ast.Or)
        out, live = [], [st]
        for i, v in enumerate(e.values):
            nxt = []
            for x in live:
                if i == len(e.values) - 1:
                    out += self.ev(v, x)
                    continue
                for y, val in self.ev(v, x):
                    if y.exit is not None:
                        out.append((y, None))
                        continue
                    for z, b in self.atom(truth(self.freeze(val, y)), y):
                        out.append((z, val)) if b == stop else nxt.append(z)
            live = nxt
        return out

    def e_Compare(self, e, st):
        if len(e.ops) > 1:
            return [(x, K(b)) for x, b in self.cond(e, st)]
        out = []
        for x, (a, b) in [(x, v) if x.exit is None else (x, (None, None)) for x, v in self.many([e.left, e.comparators[0]], st)]:
            if x.exit is not None:
                out.append((x, None))
                continue
            out.append((x, compare(type(e.ops[0]).__name__, a, b)))
        return out

    def e_IfExp(self, e, st):
        out = []
        for x, b in self.cond(e.test, st):
            out += self.ev(e.body if b else e.orelse, x) if x.exit is None else [(x, None)]
        return out

    def e_List(self, e, st):
        return [(x, ("list", vs)) for x, vs in self.many(e.elts, st)]

    def e_Tuple(self, e, st):
        return [(x, ("tuple", vs)) for x, vs in self.many(e.elts, st)]

    def e_Set(self, e, st):
        return [(x, ("set", vs)) for x, vs in self.many(e.elts, st)]

    def e_Dict(self, e, st):
        out = []
        ks = [k if k is not None else ast.Constant(value=None) for k in e.keys]
        for x, vs in self.many(ks + e.values, st):
            n = len(ks)
            out.append((x, ("dict", tuple(("kv", vs[i], vs[n + i]) if e.keys[i] is not None else ("star", vs[n + i])
                                          for i in range(n))) if x.exit is None else None))
        return out

    def e_JoinedStr(self, e, st):
        vals = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
        out = []
        for x, vs in self.many(vals, st):
            parts = []
            if x.exit is None:
                for o, v in zip(e.values, vs):
                    if isinstance(o, ast.FormattedValue):
                        conv = {114: "r", 97: "a"}.get(o.conversion, "")
                        spec = ast.unparse(o.format_spec) if o.format_spec else ""
                        if not conv and not spec and v[0] == "k" and v[1] == "str":
                            parts.append(v)
                        else:
                            parts.append(("fmt", conv, spec, unstr(v)))
                    else:
                        parts.append(v)
            out.append((x, fstr(parts)))
        return out

    def e_Lambda(self, e, st):
        return [(st, Closure(e, self.mod, self.cls, st.env))]

    def e_Starred(self, e, st):
        return [(x, ("star", v)) for x, v in self.ev(e.value, st)]

    def e_Yield(self, e, st):
        return [(x, ("sent",)) for x in self.s_Expr(ast.Expr(value=e), st)]

    def comps(self, gens, leaf, st, kind):
        """cases of a comprehension with the given generators below a state: [(conds, yields)], in the inner state's depth"""
        g, rest = gens[0], gens[1:]
        r = self.ev(g.iter, st)
        res = []
        for x, v in r:
            if x.exit is not None:
                res.append((x, None))
                continue
            v = seq(self.freeze(v, x))
            inner = St(dict(x.env), x.depth + 1)
            inner.heap, inner.epoch = x.heap, x.epoch
            sts = self.assign(g.target, ("bv", inner.depth), inner)
            ends = []
            for c in g.ifs:
                nxt = []
                for y in sts:
                    for z, b in self.cond(c, y):
                        nxt.append(z) if b and z.exit is None else ends.append((z, ()))
                sts = nxt
            for y in sts:
                if rest:
                    ends += [(z, (("star", w),) if w is not None else ()) for z, w in self.comps(rest, leaf, y, kind)]
                else:
                    ends += [(z, (w,)) for z, w in leaf(y)]
            res += self.comp_of(v, ends, x)
        return res

    def comp_of(self, src, ends, st):
        """the value of a comprehension of which the iterations end in the given states"""
        cases = frozenset((frozenset(z.conds), ys) for z, ys in ends if z.exit is None)
        effs = frozenset((frozenset(z.conds), self.effects(z.effs), False) for z, _ in ends if z.exit is None)
        out = []
        after = st
        leave = [z for z, _ in ends if z.exit is not None]
        if leave:
            table = frozenset((frozenset(z.conds), z.exit or ("next",), self.effects(z.effs)) for z, _ in ends)
            after = st.copy()
            for e, f in {(z.exit, self.effects(z.effs)) for z in leave}:
                atom = ("some", src, table, e, f)
                y = st.copy()
                y.conds += ((atom, True),)
                y.exit = e
                out.append((y, None))
                after.conds += ((atom, False),)
        if any(f for _, f, _ in effs):
            after = after.copy()
            after.effs += ((("for", src), ("for", effs)),)
        return out + [(after, comp("gen", src, cases))]

    def e_ListComp(self, e, st):
        return [(x, wrap("list", v) if x.exit is None else None) for x, v in self.comps(e.generators, lambda s: self.evf(e.elt, s), st, "list")]

    def e_SetComp(self, e, st):
        return [(x, wrap("set", v) if x.exit is None else None) for x, v in self.comps(e.generators, lambda s: self.evf(e.elt, s), st, "set")]

    def e_GeneratorExp(self, e, st):
        return self.comps(e.generators, lambda s: self.evf(e.elt, s), st, "gen")

    def e_DictComp(self, e, st):
        def leaf(s):
            return [(x, ("kv",) + vs if x.exit is None else None) for x, vs in self.many([e.key, e.value], s)]
        return [(x, wrap("dict", v) if x.exit is None else None) for x, v in self.comps(e.generators, leaf, st, "dict")]

    def evf(self, e, st):
        return [(x, self.freeze(v, x) if v is not None else None) for x, v in self.ev(e, st)]

    # ---- calls
    def e_Call(self, e, st, stmt=False):
        out = []
        f = e.func
        if isinstance(f, ast.Attribute):
            heads = []
            for x, b in self.ev(f.value, st):
                heads.append((x, ("m", b, f.attr) if x.exit is None else None))
        else:
            heads = self.ev(f, st)
        for x, h in heads:
            if x.exit is not None:
                out.append((x, None))
                continue
            kws = [k.value if k.arg else k.value for k in e.keywords]
            # owned closures called with their captured environment
            for y, vs in self.many(list(e.args) + kws, x):
                if y.exit is not None:
                    out.append((y, None))
                    continue
                n = len(e.args)
                npos = len(vs) - len(kws)
                kw = [((k.arg or "**"), vs[npos + i]) for i, k in enumerate(e.keywords)]
                out += self.apply(h, vs[:npos], kw, y, stmt, f)
            if len(out) > MAXP:
                raise TooBig()
        return out

    def apply(self, h, pos, kw, st, stmt, fnode):
        if isinstance(h, Closure):
            return self.call_closure(h, pos, kw, st)
        recv = attr = None
        if h[0] == "m":
            recv, attr = self.freeze(h[1], st), h[2]
            if isinstance(fnode.value, ast.Name) and owned(recv) and attr in MUTATE and len(pos) == 1 and not kw:
                st = st.copy()
                v = pos[0]
                if attr in ("extend", "update"):
                    w = strip_at(v)
                    new = recv
                    if w[0] in ("list", "tuple", "dict", "set"):
                        for y in w[1]:
                            new = push(new, y)
                    else:
                        new = push(new, ("star", seq(v)))
                else:
                    new = push(recv, v)
                st.env[fnode.value.id] = new
                return [(st, NONE)]
            if attr == "format" and recv[:2] == ("k", "str"):
                v = formatted(ast.literal_eval(recv[2]), pos, dict(kw))
                if v is not None:
                    return [(st, v)]
            hv = self.getattr(st, recv, attr)
        else:
            hv = h
        w = strip_at(hv)
        target, bound = self.resolve(w, recv, attr)
        name = w[1].rsplit(".", 1)[-1] if w[0] == "g" else attr
        if w[0] == "g" and w[1] in ("typing.cast", "cast") and len(pos) == 2:
            return [(st, pos[1])]
        if name in ("deepcopy", "copy") and w[0] == "g" and w[1].startswith("copy."):
            pass
        if w == ("g", "str") and len(pos) == 1 and not kw:
            if pos[0][0] == "k" and pos[0][1] == "str":
                return [(st, pos[0])]
            return [(st, fstr([("fmt", "", "", unstr(pos[0]))]))]
        if w[0] == "g" and w[1] in ("list", "set", "tuple", "frozenset", "dict") and len(pos) <= 1 and not kw:
            k = w[1]
            if not pos:
                return [(st, (k, ()) if k in ("list", "set", "tuple", "dict") else ("call", w, (), ()))]
            v = seq(pos[0])
            if v[0] == "comp":
                return [(st, wrap(k, v))]
            if v[0] in ("list", "tuple") and k in ("list", "tuple"):
                return [(st, (k, v[1]))]
            if k in ("list", "tuple"):
                return [(st, (k, (("star", v),)))]
        if w == ("g", "isinstance") and len(pos) == 2:
            cs = alternatives(pos[1])
            if len(cs) == 1:
                return [(st, ("isa", pos[0], cs[0][1] if cs[0][0] == "g" else str(cs[0])))]
            out, rest = [], [st]
            for c in cs:
                nxt = []
                for x in rest:
                    for y, b in self.atom(("isa", pos[0], c[1] if c[0] == "g" else str(c)), x):
                        out.append((y, TRUE)) if b else nxt.append(y)
                rest = nxt
            return out + [(x, FALSE) for x in rest]
        if name in GENSINK:
            pos = tuple(seq(v) if i == 0 else v for i, v in enumerate(pos))
        if w[0] == "g" and w[1] == "map" and len(pos) == 2 and not kw:
            if pos[0][0] in ("g", "closure") or isinstance(pos[0], Closure):
                src = seq(pos[1])
                inner = St(dict(st.env), st.depth + 1)
                inner.heap, inner.epoch = st.heap, st.epoch
                leaf = [(z, self.freeze(v, z) if v is not None else None)
                        for z, v in self.apply(pos[0], (("bv", inner.depth),), (), inner, False, None)]
                return self.comp_of(src, [(z, (v,)) for z, v in leaf], st)
        if target is not None and self.inline(target) and target.id not in self.stack and len(self.stack) < 8 and not generator(target.node):
            env = self.bind(target, bound, pos, kw, st)
            if env is not None:
                self.used.add(target.id)
                return self.call_inline(target, env, st)
        pos, kw = self.normal_args(w, target, bound, attr, pos, kw)
        val = ("call", hv if recv is None or w[0] == "g" else ("attr", recv, attr), pos, kw)
        if recv is not None and w[0] != "g":
            key = strip_at(recv)
            if stmt or attr in self.pk.effectful:
                if not (stmt and attr in ("deserialize",)):
                    st = self.effect(st, key, ("called" if not stmt else "call", attr, strip_all(pos), strip_all(kw)))
        elif name and name not in BUILTIN_PURE and (stmt or name in self.pk.effectful and w[0] == "g" and w[1] not in self.pk.classes):
            st = self.effect(st, ("fn",), ("call", w, pos, kw))
        return [(st, val)]

    def resolve(self, w, recv, attr):
        """(function called, value bound to its first parameter)"""
        pk = self.pk
        if w[0] == "g":
            if w[1] in pk.funcs:
                f = pk.funcs[w[1]]
                return f, None
            return None, None
        if recv is not None:
            r = strip_at(recv)
            if r == ("self",) and self.cls:
                f = pk.method(self.cls, attr)
                if f and not any("property" in d for d in f.decorators()):
                    return f, recv
            if r[0] == "g" and r[1] in pk.classes:
                f = pk.method(r[1], attr)
                if f:
                    return f, recv if any("classmethod" in d for d in f.decorators()) else None
            if r[0] == "call" and strip_at(r[1])[0] == "g" and strip_at(r[1])[1] == "super" and self.cls:
                for c in pk.mro(self.cls)[1:]:
                    f = pk.funcs.get(c + "." + attr)
                    if f:
                        return f, ("self",)
            c = pk.by_method.get(attr, ())
            if len(c) == 1 and c[0].cls and c[0].private:
                return c[0], recv
        return None, None

    def bind(self, f, bound, pos, kw, st):
        ps = params(f.node)
        env = {}
        deco = f.decorators()
        if f.cls is not None and not any("staticmethod" in d for d in deco):
            if bound is None:
                if not pos:
                    return None
                bound, pos = pos[0], pos[1:]
            env[ps[0][0]] = bound
            ps = ps[1:]
        if any(v[0] == "star" for v in pos) or any(k == "**" for k, _ in kw):
            return None
        pos, kw = list(pos), dict(kw)
        for n, k, d in ps:
            if k == "*":
                env[n] = ("tuple", tuple(pos))
                pos = []
            elif k == "**":
                env[n] = ("dict", tuple(("kv", K(a), v) for a, v in sorted(kw.items())))
                kw = {}
            elif k == "p" and pos:
                env[n] = pos.pop(0)
            elif n in kw:
                env[n] = kw.pop(n)
            elif d is not None:
                env[n] = self.ev(d, St({}, 0))[0][1]
            else:
                return None
        return None if pos or kw else env

    def call_inline(self, f, env, st):
        mod, cls = self.mod, self.cls
        try:
            # the receiver of an inlined method is what self means inside it
            outs = self.body(f, env, st.depth, st)
        finally:
            self.mod, self.cls = mod, cls
        res = []
        for x in outs:
            y = st.copy()
            y.conds, y.effs, y.heap, y.epoch = x.conds, x.effs, x.heap, x.epoch
            e = x.exit or ("return", NONE)
            if e[0] == "return":
                res.append((y, e[1]))
            else:
                y.exit = e
                res.append((y, None))
        return res

    def call_closure(self, c, pos, kw, st):
        ps = params(c.node)
        env = dict(c.env)
        pos, kw = list(pos), dict(kw)
        for n, k, d in ps:
            if k == "*":
                env[n] = ("tuple", tuple(pos))
                pos = []
            elif k == "p" and pos:
                env[n] = pos.pop(0)
            elif n in kw:
                env[n] = kw.pop(n)
            elif d is not None:
                env[n] = self.ev(d, St(dict(c.env), 0))[0][1]
            else:
                env[n] = ("missing",)
        s = St(env, st.depth)
        s.conds, s.effs, s.heap, s.epoch = st.conds, st.effs, st.heap, st.epoch
        if isinstance(c.node, ast.Lambda):
            outs = [(x, self.freeze(v, x)) for x, v in self.ev(c.node.body, s)]
            rs = [(x, ("return", v) if x.exit is None else x.exit) for x, v in outs]
        else:
            if self.stack.count("<" + c.node.name) > 0:
                return [(st, ("rec", tuple(pos)))]
            self.stack.append("<" + c.node.name)
            try:
                rs = [(x, x.exit or ("return", NONE)) for x in self.block(c.node.body, [s])]
            finally:
                self.stack.pop()
        res = []
        for x, e in rs:
            y = st.copy()
            y.conds, y.effs, y.heap, y.epoch = x.conds, x.effs, x.heap, x.epoch
            # what the function did to the variables it shares
            for n in c.env:
                if n not in [p[0] for p in ps] and x.env.get(n) is not c.env.get(n) and n in y.env and y.env[n] is c.env.get(n):
                    y.env[n] = x.env[n]
            if e[0] == "return":
                res.append((y, e[1]))
            else:
                y.exit = e
                res.append((y, None))
        return res

    def normal_args(self, w, target, bound, attr, pos, kw):
        """arguments by parameter name where the parameters are known; defaults left out"""
        pk = self.pk
        ps = None
        if w[0] == "g" and w[1] in pk.classes:
            ps = pk.init_params(w[1])
        elif target is not None:
            ps = params(target.node)
            if target.cls and not any("staticmethod" in d for d in target.decorators()) and (bound is not None or attr):
                ps = ps[1:]
        elif attr is not None:
            fs = [f for f in pk.by_method.get(attr, ()) if f.cls]
            sigs = {tuple((n, k, ast.unparse(d) if d is not None else "") for n, k, d in params(f.node)[1:]) for f in fs}
            if len(sigs) == 1:
                ps = params(fs[0].node)[1:]
        if ps and not any(v[0] == "star" for v in pos) and not any(k == "**" for k, _ in kw):
            names = [n for n, k, d in ps if k == "p"]
            star = any(k == "*" for n, k, d in ps)
            if len(pos) <= len(names) and not (star and len(pos) > len(names)):
                kw = list(zip(names, pos)) + list(kw)
                pos = ()
            dm = {n: d for n, k, d in ps if d is not None}
            kw = [(n, v) for n, v in kw if not (n in dm and isinstance(dm[n], ast.Constant) and K(dm[n].value) == v)]
        return tuple(pos), tuple(sorted(kw, key=lambda x: x[0]))


def generator(node):
    for x in ast.walk(node):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def as_load(t):
    t = ast.parse(ast.unparse(t), mode="eval").body
    return t


def strip_all(v):
    return v


def exc(v):
    """the class of an exception and what it carries besides a message"""
    if isinstance(v, tuple) and v[0] == "call":
        keep = tuple(x for x in v[2] if not text(x)), tuple((k, x) for k, x in v[3] if not text(x))
        return ("call", v[1]) + keep if any(keep) else v[1]
    return v


def text(v):
    return v[0] in ("fstr",) or v[0] == "k" and v[1] == "str"


def unstr(v):
    """an f-string hole holding a single plain hole is that hole"""
    if v[0] == "fstr" and len(v[1]) == 1 and v[1][0][:3] == ("fmt", "", ""):
        return v[1][0][3]
    return v


def fstr(parts):
    out = []
    for p in parts:
        if p[0] == "fmt" and p[1] == p[2] == "" and p[3][0] == "fstr":
            out += list(p[3][1])
        else:
            out.append(p)
    res = []
    for p in out:
        if p[0] == "k" and res and res[-1][0] == "k":
            res[-1] = K(ast.literal_eval(res[-1][2]) + ast.literal_eval(p[2]))
        else:
            res.append(p)
    if not res:
        return K("")
    if len(res) == 1 and res[0][0] == "k":
        return res[0]
    return ("fstr", tuple(res))


def formatted(t, pos, kw):
    """t.format(...)"""
    parts, n = [], 0
    if any(v[0] == "star" for v in pos) or "**" in kw:
        return None
    try:
        for lit, name, spec, conv in string.Formatter().parse(t):
            if lit:
                parts.append(K(lit))
            if name is None:
                continue
            if name == "":
                v, n = pos[n], n + 1
            else:
                v = pos[int(name)] if name.isdigit() else kw[name]
            if "{" in (spec or ""):
                return None
            spec = ast.unparse(ast.JoinedStr([ast.Constant(spec)])) if spec else ""
            parts.append(v if not conv and not spec and v[:2] == ("k", "str") else ("fmt", conv or "", spec, unstr(v)))
    except (KeyError, IndexError, ValueError):
        return None
    return fstr(parts)


def alternatives(c):
    c = strip_at(c)
    if c[0] == "tuple":
        return [y for x in c[1] for y in alternatives(x)]
    if c[0] == "bin" and c[1] == "BitOr":
        return alternatives(c[2]) + alternatives(c[3])
    return [c]


def sub(v, i):
    w = strip_at(v)
    if w[0] in ("list", "tuple") and i[0] == "k" and i[1] == "int":
        n = ast.literal_eval(i[2])
        items = w[1]
        stars = [j for j, e in enumerate(items) if e[0] == "star"]
        if not stars and -len(items) <= n < len(items):
            return items[n]
        if stars and 0 <= n < stars[0]:
            return items[n]
    return ("sub", v, i)


def push(v, y):
    if v[0] in ("list", "dict", "set"):
        return (v[0], v[1] + (y,))
    if v[0] == "comp" and v[1] in ("list", "dict", "set"):
        return (v[1], (("star", ("comp", "gen") + v[2:]), y))
    return ("push", v, y)


def comp(kind, src, cases):
    # x for x in xs is xs
    if kind == "gen" and len(cases) == 1:
        (c, ys), = cases
        if not c and len(ys) == 1 and ys[0][0] == "bv":
            return seq(src)
    return ("comp", kind, src, cases)


def wrap(kind, v):
    if v is None:
        return None
    if v[0] == "comp":
        return (kind, (("star", v),))
    if kind in ("list", "tuple") and v[0] in ("list", "tuple"):
        return (kind, v[1])
    return (kind, (("star", v),))


def seq(v):
    """a list that is only iterated is as good as what it was made from"""
    while v[0] in ("list", "tuple") and len(v[1]) == 1 and v[1][0][0] == "star":
        v = v[1][0][1]
    return v


def refers(v, p):
    if v == p:
        return True
    if isinstance(v, (tuple, frozenset)):
        return any(refers(x, p) for x in v)
    return False


def binop(op, a, b):
    if op == "Add":
        wa, wb = strip_at(a), strip_at(b)
        if wa[0] == "list" or wb[0] == "list":
            l = wa[1] if wa[0] == "list" else (("star", seq(a)),)
            r = wb[1] if wb[0] == "list" else (("star", seq(b)),)
            return ("list", l + r)
        if text(wa) or text(wb):
            return fstr([x if x[0] == "k" else ("fmt", "", "", x) for x in (a, b)])
        if wa[0] == "k" and wb[0] == "k" and wa[1] == wb[1] == "int":
            return K(ast.literal_eval(wa[2]) + ast.literal_eval(wb[2]))
        if wa[0] == "k" and wa[1] == "int":
            a, b = b, a
    if op == "BitOr" and repr(b) < repr(a):
        a, b = b, a
    return ("bin", op, a, b)


def eq(a, b):
    if repr(b) < repr(a):
        a, b = b, a
    if b[0] == "k" and a[0] != "k":
        a, b = b, a
    return ("eq", a, b)


def compare(op, a, b):
    if op == "Eq":
        return eq(a, b)
    if op == "NotEq":
        return ("not", eq(a, b))
    if op in ("Is", "IsNot"):
        if a[0] == "k":
            a, b = b, a
        return ("is", a, b) if op == "Is" else ("not", ("is", a, b))
    if op in ("In", "NotIn"):
        return ("in", a, b) if op == "In" else ("not", ("in", a, b))
    if op == "Lt":
        return ("lt", a, b)
    if op == "Gt":
        return ("lt", b, a)
    if op == "GtE":
        return ("not", ("lt", a, b))
    if op == "LtE":
        return ("not", ("lt", b, a))
    return ("cmp", op, a, b)


def truth(v):
    if v[0] in ("eq", "is", "isa", "lt", "in", "seqlen", "some", "exc", "cmp"):
        return v
    if v[0] == "not":
        return ("not", truth(v[1]))
    if v[0] == "call" and v[1] == ("g", "len") and len(v[2]) == 1:
        return ("true", v[2][0])
    return ("true", v)


def contradicts(pk, a, conds):
    for b, pol in conds:
        if not pol:
            if a[0] == "isa" and b[0] == "isa" and a[1] == b[1] and pk.subclass(a[2], b[2]):
                return True
            continue
        if exclusive(pk, a, b):
            return True
    return False


def exclusive(pk, a, b):
    if a[0] == b[0] == "isa" and a[1] == b[1]:
        return not pk.related(a[2], b[2])
    if a[0] == b[0] == "eq" and a[1][0] == b[1][0] == "k" and a[2] == b[2]:
        return a[1] != b[1]
    if a[0] == b[0] == "seqlen" and a[1] == b[1]:
        return a[2] != b[2]
    if a[0] == b[0] == "some" and a[1:3] == b[1:3]:
        return a[3:] != b[3:]
    for x, y in ((a, b), (b, a)):
        if x[0] == "is" and x[2] == NONE:
            if y[0] == "isa" and y[1] == x[1] or y[0] == "true" and y[1] == x[1] or y[0] in ("seqlen", "seqmin") and y[1] == x[1]:
                return True
            if y[0] == "eq" and y[1][0] == "k" and y[2] == x[1] and y[1] != NONE:
                return True
        if x[0] == "seqlen" and y[0] == "seqmin" and x[1] == y[1]:
            return x[2] < y[2]
        if x[0] == "seqlen" and x[2] == 0 and y == ("true", x[1]):
            return True
    return False


def implied(pk, a, conds):
    """is a certain, given the conditions?"""
    for b, pol in conds:
        if pol and a[0] == "isa" and b[0] == "isa" and a[1] == b[1] and pk.subclass(b[2], a[2]):
            return True
    return False


def compatible(pk, c, d):
    """can both conditions hold at once?"""
    m = dict(c)
    for a, b in d:
        if m.get(a, b) != b:
            return False
    pos = [a for a, b in c if b]
    for a, b in d:
        if b:
            if any(exclusive(pk, a, x) for x in pos if x != a):
                return False
            if a[0] == "isa" and any(x[0] == "isa" and x[1] == a[1] and not p and pk.subclass(a[2], x[2]) for x, p in c):
                return False
        elif a[0] == "isa" and any(x[0] == "isa" and x[1] == a[1] and pk.subclass(x[2], a[2]) for x in pos):
            return False
    return True


class Eq:
    """equality of values up to how case distinctions inside them are made"""

    def __init__(self, pk):
        self.pk = pk
        self.memo = {}

    def same(self, a, b):
        if a is b:
            return True
        if type(a) != type(b):
            return False
        if not isinstance(a, (tuple, frozenset)):
            return a == b
        k = id(a), id(b)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = (a == b or self.same_(a, b), a, b)
        return r[0]

    def same_(self, a, b):
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, frozenset):
            l, r = list(a), list(b)
            if l and r and all(isinstance(x, tuple) and len(x) >= 2 and isinstance(x[0], frozenset) for x in l + r):
                return self.cases(l, r)
            if len(l) != len(r):
                return False
            r = list(r)
            for x in l:
                for j, y in enumerate(r):
                    if self.same(x, y):
                        del r[j]
                        break
                else:
                    return False
            return True
        return False

    def cases(self, l, r):
        for x in l:
            for y in r:
                if not (len(x) == len(y) and all(self.same(p, q) for p, q in zip(x[1:], y[1:]))) and compatible(self.pk, x[0], y[0]):
                    return False
        return True

    def diff(self, l, r):
        """a pair of paths that can be taken together and do different things"""
        known = {a for x in l for a, _ in x[0]}
        new = {a for x in r for a, _ in x[0]} - known
        alias = {}
        for a in new:
            for b in known:
                if a[0] == b[0] and self.same(a, b):
                    alias[a] = b
                    break
        if alias:
            r = [(frozenset((alias.get(a, a), p) for a, p in x[0]),) + tuple(x[1:]) for x in r]
        for x in l:
            for y in r:
                if not (self.same(x[1], y[1]) and self.same(x[2], y[2])) and compatible(self.pk, x[0], y[0]):
                    return x, y
        return None


def show(v, d=0):
    if not isinstance(v, tuple):
        if isinstance(v, frozenset):
            return "{" + ", ".join(sorted(show(x, d + 1) for x in v)) + "}"
        return str(v)
    if not v:
        return "()"
    h = v[0]
    if d > 9:
        return "…"
    if h == "k":
        return v[2]
    if h == "g":
        return v[1]
    if h == "self":
        return "self"
    if h == "p":
        return str(v[1])
    if h == "bv":
        return f"each{v[1]}"
    if h == "attr":
        return show(v[1], d + 1) + "." + v[2]
    if h == "sub":
        return f"{show(v[1], d + 1)}[{show(v[2], d + 1)}]"
    if h == "at":
        return show(v[2], d)
    if h == "call":
        return show(v[1], d + 1) + "(" + ", ".join([show(x, d + 1) for x in v[2]] + [f"{k}={show(x, d + 1)}" for k, x in v[3]]) + ")"
    if h in ("list", "tuple", "set", "dict"):
        return h + "(" + ", ".join(show(x, d + 1) for x in v[1]) + ")"
    if h == "star":
        return "*" + show(v[1], d + 1)
    return "(" + " ".join(show(x, d + 1) for x in v) + ")"


def show_path(p):
    c, e, f = p
    s = " and ".join(sorted(("" if b else "not ") + show(a) for a, b in c)) or "always"
    t = f"{e[0]} " + (show(e[1]) if len(e) > 1 else "")
    if f:
        t += "; effects: " + ", ".join(sorted(show(k) + ": " + " then ".join(show(x) for x in v) for k, v in f))
    return f"{t} IF {s}"

"""Compare the Python package with the reviewed one, function by function."""
import ast, os, re
from . import pyan
from .pyan import Package, Exec, Eq, TooBig, params, show, show_path

SPECIAL = set("__eq__ __hash__ __bool__ __len__ __iter__ __contains__ __getattr__ __getattribute__ __setattr__ __delattr__ __call__ __getitem__ "
              "__setitem__ __delitem__ __add__ __lt__ __le__ __gt__ __ge__ __ne__ __new__ __post_init__".split())
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFPY = os.path.join(HERE, "spec", "reference_py")


def repo():
    return os.environ.get("HUGR_REPO", "/repo")


_ref = []


def ref_package():
    if not _ref:
        _ref.append(Package(REFPY))
    return _ref[0]


def cur_package():
    return Package(os.path.join(repo(), "hugr-py", "src", "hugr"))


_dump = {}


def dump(f):
    k = id(f.node)
    if k not in _dump:
        _dump[k] = (f.node, ast.dump(f.node))
    return _dump[k][1]


def size(f):
    return sum(1 for x in ast.walk(f.node) if isinstance(x, ast.stmt))


class PyConformance:
    def __init__(self, ref=None, cur=None):
        self.r = ref or ref_package()
        self.c = cur or cur_package()
        self.r0, self.c0 = set(self.r.funcs), set(self.c.funcs)
        self.memo = {}
        self.paths = 0
        self.deep = set()
        self.undecided = []
        self.changed = None

    def summ(self, side, i, tier):
        k = (side, i, tier)
        if k not in self.memo:
            pk = self.r if side == "r" else self.c
            try:
                self.memo[k] = Exec(pk, self.inliner(pk, side, tier)).summary(pk.funcs[i])
            except (TooBig, RecursionError) as e:
                self.memo[k] = None
        return self.memo[k]

    def inliner(self, pk, side, tier):
        other = self.c0 if side == "r" else self.r0
        if tier == 0:
            return lambda f: False

        def one(f):
            if f.cls and pk.overridden(f.cls, f.node.name) and f.id in other:
                return False
            if f.id not in other:
                return True
            if tier == 1:
                return f.private and f.id in self.touched()
            return tier == 3 or f.private or f.cls is None and size(f) <= 12
        return one

    def touched(self):
        """functions on both sides that are not the same text"""
        if self.changed is None:
            self.changed = {i for i in self.r0 & self.c0
                            if dump(self.r.funcs[i]) != dump(self.c.funcs[i])}
            self.changed |= self.r0 ^ self.c0
        return self.changed

    def equal(self, i):
        """None when the function does the same, else what differs"""
        first = None
        decided = False
        for tier in (0, 1, 2, 3):
            a, b = self.summ("r", i, tier), self.summ("c", i, tier)
            if a is None or b is None:
                continue
            if decided and max(len(a), len(b)) > 80:
                continue         # deeper inlining is too much here
            decided = True
            if tier == 0:
                self.paths += len(a)
            d = Eq(self.c).diff(a, b)
            if d is None:
                if tier:
                    self.deep.add(i)
                return None
            if first is None:
                first = [show_path(d[0]), show_path(d[1])]
        if not decided:
            if dump(self.r.funcs[i]) != dump(self.c.funcs[i]):
                self.undecided.append(i)
            return None
        return first

    def interface(self, i):
        a, b = self.r.funcs[i], self.c.funcs[i]
        if a.private:
            return None
        pa = [(n, k, d is not None and ast.dump(d)) for n, k, d in params(a.node)]
        pb = [(n, k, d is not None and ast.dump(d)) for n, k, d in params(b.node)]
        if not all(x in pb for x in pa) or [x[0] for x in pb if x in pa] != [x[0] for x in pa] or any(
                x not in pa and x[2] is False and x[1] not in "**" for x in pb):
            return [f"parameters {[x[0] for x in pa]}", f"parameters {[x[0] for x in pb]}"]
        da = {d for d in a.decorators() if re.search("property|static|class", d)}
        db = {d for d in b.decorators() if re.search("property|static|class", d)}
        if {x.replace("cached_", "").split(".")[-1] for x in da} != {x.replace("cached_", "").split(".")[-1] for x in db}:
            return [f"decorators {sorted(da)}", f"decorators {sorted(db)}"]
        return None

    def other_defaults(self, i):
        a, b = ({n: ast.dump(d) for n, k, d in params(pk.funcs[i].node) if d is not None} for pk in (self.r, self.c))
        for n in a:
            if b.get(n, a[n]) != a[n]:
                return [f"default of {n}", f"another default of {n}"]
        return None

    def users(self, name):
        out = set()
        for pk in (self.r, self.c):
            for f in pk.funcs.values():
                if f.node.name != name and name in names_used(f):
                    out.add(f.id)
        return out

    def check(self, i, seen=()):
        """None if fine, else (message, details)"""
        f = self.r.funcs[i]
        if i not in self.c.funcs:
            if f.private:
                return None          # judged where it was used
            if f.cls and f.cls in self.c.classes:
                g = self.c.method(f.cls, f.node.name)
                if g is not None:    # inherited now
                    return None if g.id in self.r.funcs or True else None
                m, c = self.c.classes[f.cls]
                if f.node.name in ("__init__", "__eq__", "__repr__", "__post_init__", "__hash__"):
                    return None
            return "is no longer there", []
        d = self.interface(i)
        if d:
            return "has another interface than the reviewed one", d
        d = self.equal(i) or self.other_defaults(i)
        if d is None:
            return None
        if f.private and i not in seen and len(seen) < 4:
            us = [u for u in self.users(f.node.name) if u in self.r.funcs and u in self.c.funcs and u != i]
            if us and all(self.inlined_user_equal(u, i) for u in us):
                return None
        return "does something else than the reviewed behaviour", d

    def inlined_user_equal(self, u, i):
        """the function i is inlined on both sides: is its user the same?"""
        sums = []
        for pk, other in ((self.r, self.c0), (self.c, self.r0)):
            e = Exec(pk, lambda f, o=other: f.id == i or f.id not in o or f.private and f.id in self.touched())
            try:
                sums.append(e.summary(pk.funcs[u]))
            except (TooBig, RecursionError):
                return False
            if i not in e.used:
                return False
        return Eq(self.c).diff(*sums) is None

    def check_new(self, i):
        """a method that now hides a reviewed one must do the same"""
        f = self.c.funcs[i]
        if not f.cls or f.cls not in self.r.classes:
            return None
        name = f.node.name
        g = self.r.method(f.cls, name)
        if g is None:
            if name in SPECIAL:
                return "is new and changes what an operator does", []
            return None
        a, b = self.summ_of(self.r, g), self.summ_of(self.c, f)
        if a is None or b is None or Eq(self.c).diff(a, b) is None:
            return None
        # a method that only calls the hidden one
        e = Exec(self.c, lambda x: x.id == g.id)
        try:
            if Eq(self.c).diff(a, e.summary(f)) is None:
                return None
        except (TooBig, RecursionError):
            return None
        return f"hides {g.id} and does something else", []

    def summ_of(self, pk, f):
        try:
            return Exec(pk).summary(f)
        except (TooBig, RecursionError):
            return None

    # ---- classes and constants
    def class_facts(self, pk, q):
        m, c = pk.classes[q]
        mro = pk.mro(q)
        pyd = any(b.endswith((".BaseModel", ".RootModel")) for b in mro)
        dc = any("dataclass" in ast.unparse(d) for d in c.decorator_list)
        enum = any(b.split(".")[-1] in ("Enum", "IntEnum", "StrEnum") for b in mro)
        out = {"bases": tuple(b for b in pk.bases(q) if b in pk.classes or b.split(".")[-1] in (
            "BaseModel", "RootModel", "Enum", "Exception", "Protocol", "str"))}
        for d in c.decorator_list:
            t = ast.unparse(d)
            if "dataclass" in t:
                out["dataclass"] = frozenset((k.arg, ast.unparse(k.value)) for k in getattr(d, "keywords", []))
        order = []
        for s in c.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                n = s.target.id
                if pyd or dc:
                    order.append(n)
                    out["field " + n] = (self.ann(pk, m, s.annotation) if pyd else "ClassVar" in ast.unparse(s.annotation),
                                         self.const(pk, m, s.value))
                elif s.value is not None:
                    out["attribute " + n] = self.const(pk, m, s.value)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        out["attribute " + t.id] = self.const(pk, m, s.value)
        if dc:
            out["field order"] = tuple(order)
        return out

    def const(self, pk, m, e):
        if e is None:
            return None
        ex = Exec(pk)
        ex.mod, ex.cls = m, None
        try:
            return frozenset((frozenset(x.conds), ex.freeze(v, x)) for x, v in ex.ev(e, pyan.St({}, 0)))
        except (TooBig, RecursionError):
            return ast.dump(e)

    def ann(self, pk, m, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            e = ast.parse(e.value, mode="eval").body
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return pk.lookup(m, e.id)
        if isinstance(e, ast.Attribute):
            t = ast.unparse(e).split(".")
            return pk.canon(".".join([pk.lookup(m, t[0])] + t[1:]))
        if isinstance(e, ast.BinOp):
            l = []

            def flat(x):
                if isinstance(x, ast.BinOp):
                    flat(x.left)
                    flat(x.right)
                else:
                    l.append(self.ann(pk, m, x))
            flat(e)
            return frozenset(l)
        if isinstance(e, ast.Subscript):
            b = self.ann(pk, m, e.value)
            b = b.split(".")[-1] if isinstance(b, str) else b
            args = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if b == "Literal":
                return ("Literal", frozenset(ast.unparse(x) for x in args))
            vs = tuple(self.ann(pk, m, x) for x in args)
            if b == "Optional":
                return frozenset([vs[0], None])
            if b == "Union":
                return frozenset(vs)
            return (b.lower() if b in ("List", "Dict", "Tuple", "Set") else b,) + vs
        if isinstance(e, ast.Call):
            return self.const(pk, m, e)
        if isinstance(e, ast.List):
            return tuple(self.ann(pk, m, x) for x in e.elts)
        return ast.unparse(e)

    def check_class(self, q):
        if q not in self.c.classes:
            return None if q.rsplit(".", 1)[1].startswith("_") else ("class is no longer there", [])
        a, b = self.class_facts(self.r, q), self.class_facts(self.c, q)
        for k in a:
            if k not in b and k.startswith("attribute _"):
                continue
            if k not in b:
                return f"{k} is no longer there", []
            if not Eq(self.c).same(a[k], b[k]):
                return f"{k} is another than the reviewed one", [show(a[k])[:600], show(b[k])[:600]]
        for k in b:
            if k not in a and k.startswith("field ") and b[k][1] is None:
                return f"{k} is new and required", []
        return None

    def check_global(self, g):
        name = g.rsplit(".", 1)[1]
        m, s = self.r.globals[g]
        if g not in self.c.globals:
            return None if name.startswith("_") else ("is no longer there", [])
        m2, s2 = self.c.globals[g]
        if isinstance(s.value, (ast.Subscript, ast.BinOp)) and isinstance(s2.value, (ast.Subscript, ast.BinOp)):
            a, b = self.ann(self.r, m, s.value), self.ann(self.c, m2, s2.value)
        else:
            a, b = self.const(self.r, m, s.value), self.const(self.c, m2, s2.value)
        if Eq(self.c).same(a, b):
            return None
        return "has another value than the reviewed one", [show(a)[:600], show(b)[:600]]


_used = {}


def names_used(f):
    k = id(f.node)
    if k not in _used:
        _used[k] = (f.node, {x.attr if isinstance(x, ast.Attribute) else x.id for x in ast.walk(f.node)
                             if isinstance(x, (ast.Attribute, ast.Name))})
    return _used[k][1]

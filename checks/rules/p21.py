"""P21: the JSON written by Rust is the JSON read and written by Python."""
import ast, json, os, re
from lib import pyrules
from lib.pyconf import repo
from lib.report import Anchor
from lib.serde import Grammar, strip

S = "hugr._serialization."
# tagged unions: (Rust enum, Python union, tag key)
UNIONS = [
    ("hugr_core::ops::OpType", S + "ops.OpType", "op"),
    ("hugr_core::types::serialize::SerSimpleType", S + "tys.Type", "t"),
    ("hugr_core::types::SumType", S + "tys.SumType", "s"),
    ("hugr_core::types::serialize::TypeParamSer", S + "tys.TypeParam", "tp"),
    ("hugr_core::types::serialize::TypeArgSer", S + "tys.TypeArg", "tya"),
    ("hugr_core::ops::constant::Value", S + "ops.Value", "v"),
    ("hugr_core::extension::type_def::TypeDefBound", S + "extension.TypeDefBound", "b"),
]
# plain objects: (Rust struct, Python class, fields only one side has)
OBJECTS = [
    ("hugr_core::hugr::serialize::SerHugrLatest", S + "serial_hugr.SerialHugr", {"version", "hidden_entrypoint"}),
    ("hugr_core::envelope::package_json::PackageSer", S + "extension.Package", set()),
    ("hugr_core::extension::Extension", S + "extension.Extension", set()),
    ("hugr_core::extension::type_def::TypeDef", S + "extension.TypeDef", set()),
    ("hugr_core::extension::op_def::OpDef", S + "extension.OpDef", set()),
    ("hugr_core::extension::op_def::LowerFunc", S + "extension.FixedHugr", set()),
    ("hugr_core::types::poly_func::PolyFuncTypeBase", S + "tys.PolyFuncType", {"t"}),
    ("hugr_core::types::signature::FuncTypeBase", S + "tys.FunctionType", {"t"}),
]
ENUMS = [("hugr_core::types::TypeBound", S + "tys.TypeBound")]
# what Python is known not to have, and why it is no disagreement about the format
GAPS = {
    ("tp", "StaticType"): "Python has no type parameters ranging over static types",
}
# tags Python accepts and Rust never writes
OLD = {("v", "Tuple"): "older files"}
# hand-written Serialize implementations: what they write
WRITTEN = {"hugr_core::ops::constant::Sum": "hugr_core::ops::constant::serialize::SerialSum",
           "hugr_core::ops::custom::ExtensionOp": "hugr_core::ops::custom::OpaqueOp"}
# #[serde(with)] on a flattened field: what it writes
WITH = {"OpDef": "hugr_core::extension::op_def::serialize_signature_func::SerSignatureFunc"}


class Py:
    def __init__(self, pk):
        self.pk = pk

    def klass(self, q):
        if q not in self.pk.classes:
            raise Anchor(f"Python class {q}")
        return self.pk.classes[q]

    def fields(self, q):
        """wire name -> (annotation, may be absent)"""
        out = {}
        for b in reversed(self.pk.mro(q)):
            if b not in self.pk.classes:
                continue
            m, c = self.pk.classes[b]
            for s in c.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.unparse(s.annotation):
                    name, dflt = s.target.id, s.value is not None
                    if isinstance(s.value, ast.Call) and ast.unparse(s.value.func).split(".")[-1] == "Field":
                        kw = {k.arg: k.value for k in s.value.keywords}
                        dflt = "default" in kw or "default_factory" in kw or bool(s.value.args)
                        for k in ("alias", "serialization_alias"):
                            if isinstance(kw.get(k), ast.Constant):
                                name = kw[k].value
                    a = s.annotation
                    if isinstance(a, ast.Constant) and isinstance(a.value, str):
                        a = ast.parse(a.value, mode="eval").body
                    out[name] = (m, a, dflt)
        return out

    def tags(self, q, key):
        f = self.fields(q).get(key)
        if not f:
            return set()
        a = f[1]
        if isinstance(a, ast.Subscript) and ast.unparse(a.value).split(".")[-1] == "Literal":
            e = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            return {x.value for x in e if isinstance(x, ast.Constant)}
        return set()

    def members(self, q):
        """the classes of a union type"""
        m, c = self.klass(q)
        root = next((s.annotation for s in c.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)
                     and s.target.id == "root"), None)
        if root is None:
            return []
        return self.flat(m, root)

    def flat(self, m, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            e = ast.parse(e.value, mode="eval").body
        if isinstance(e, ast.BinOp):
            return self.flat(m, e.left) + self.flat(m, e.right)
        if isinstance(e, ast.Subscript):
            n = ast.unparse(e.value).split(".")[-1]
            args = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if n == "Annotated":
                return self.flat(m, args[0])
            if n in ("Union", "Optional"):
                return [x for a in args for x in self.flat(m, a)]
            return []
        if isinstance(e, (ast.Name, ast.Attribute)):
            t = ast.unparse(e).split(".")
            q = self.pk.canon(".".join([self.pk.lookup(m, t[0])] + t[1:]))
            if q in self.pk.classes:
                return [q]
            if q in self.pk.globals:
                m2, s = self.pk.globals[q]
                return self.flat(m2, s.value)
        return []

    def kind(self, m, e):
        """coarse kind of a field"""
        if isinstance(e, ast.Constant):
            if e.value is None:
                return {"none"}
            if isinstance(e.value, str):
                return self.kind(m, ast.parse(e.value, mode="eval").body)
            return {"any"}
        if isinstance(e, ast.BinOp):
            return self.kind(m, e.left) | self.kind(m, e.right)
        if isinstance(e, ast.Subscript):
            n = ast.unparse(e.value).split(".")[-1].lower()
            args = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if n == "annotated":
                return self.kind(m, args[0])
            if n == "optional":
                return self.kind(m, args[0]) | {"none"}
            if n == "union":
                return set().union(*(self.kind(m, a) for a in args))
            if n == "literal":
                return {"str"}
            return {{"list": "list", "tuple": "list", "set": "list", "sequence": "list", "dict": "map", "mapping": "map"}.get(n, "any")}
        t = ast.unparse(e).split(".")
        if t[-1] in ("int", "str", "bool", "float", "bytes"):
            return {t[-1]}
        if t[-1] in ("dict", "list"):
            return {"map" if t[-1] == "dict" else "list"}
        q = self.pk.canon(".".join([self.pk.lookup(m, t[0])] + t[1:]))
        if q in self.pk.globals:
            m2, s = self.pk.globals[q]
            return self.kind(m2, s.value)
        if q in self.pk.classes:
            if any(b.split(".")[-1] in ("Enum", "IntEnum", "StrEnum") for b in self.pk.mro(q)):
                return {"str"}
            return {"object"}
        return {"any"}


def rkind(t):
    t = strip(t)
    m = re.match(r"core::option::Option<(.*)>$", t)
    if m:
        return rkind(m.group(1)) | {"none"}
    if re.match(r"(u|i)(8|16|32|64|128|size)$", t):
        return {"int"}
    if t in ("bool",):
        return {"bool"}
    if t in ("f32", "f64") or "OrderedFloat" in t:
        return {"float"}
    if re.match(r"(alloc::string::String|str|smol_str::SmolStr|hugr_core::hugr::ident::IdentList|hugr_core::core::Visibility|"
                r"hugr_core::types::TypeBound)$", t):
        return {"str"}
    if re.match(r"alloc::vec::Vec<|hugr_core::types::type_row::TypeRowBase<|\[|hugr_core::extension::ExtensionSet", t):
        return {"list"}
    if re.search(r"::(BTreeMap|HashMap|IndexMap)<", t):
        return {"map"}
    if t == "hugr_core::core::Node":
        return {"int"}
    return {"any"}


def ok(a, b):
    return "any" in a or "any" in b or a - {"none"} == b - {"none"} or "object" in b and "any" in a


class Rust:
    def __init__(self, cur):
        self.g = Grammar(cur)

    def objects(self, t, tag=None, depth=0):
        """[(tag, fields)] of everything the type writes as an object"""
        t = strip(t)
        m = re.search(r"Serialize for (?:[\w:]*::)?(\w+)>::serialize::__SerializeWith", t)
        if m:
            if m.group(1) not in WITH:
                return [({tag} - {None}, None)]
            t = WITH[m.group(1)]
        t = WRITTEN.get(re.sub(r"<.*", "", t), t)
        sh = self.g.of(t)
        if sh is None or depth > 4:
            return [({tag} - {None}, None)]
        out = []
        for s in sh:
            tags = ({tag, s.tag} if s.tag and s.tag[0] is not None else {tag}) - {None}
            cases = [(tags, dict(s.fields))]
            for n in s.nested:
                inner = self.objects(n, None, depth + 1)
                cases = [(ts | it, None if f is None or fs is None else {**f, **fs}) for ts, f in cases for it, fs in inner]
            out += cases
        return out


def run(cur, rep):
    pyrules.conform(rep, "P21")
    py, rs = Py(pyrules.conformance().c), Rust(cur)
    ntag = nfield = nobj = 0

    def fields(where, rf, pf, only=()):
        nonlocal nfield
        for n, (ty, opt) in rf.items():
            nfield += 1
            if n in only:
                continue
            if n not in pf:
                rep.violation(f"field-lost:{where}:{n}", where, f"Rust writes the field '{n}' of {where}; the Python class has no such field")
            elif not ok(rkind(ty), py.kind(pf[n][0], pf[n][1])):
                rep.violation(f"field-kind:{where}:{n}", where, f"field '{n}' of {where} is {rkind(ty)} in Rust and "
                              f"{py.kind(pf[n][0], pf[n][1])} in Python")
            elif opt and not pf[n][2]:
                rep.violation(f"field-optional:{where}:{n}", where, f"Rust may leave out '{n}' of {where}; Python requires it")
        for n, (m, a, dflt) in pf.items():
            if n not in rf and n not in only and not dflt:
                rep.violation(f"field-missing:{where}:{n}", where, f"Python requires the field '{n}' of {where}, which Rust does not write")

    for rt, pq, key in UNIONS:
        objs = rs.objects(rt)
        if not objs:
            raise Anchor(f"no Serialize implementation of {rt} found")
        mem = py.members(pq)
        todo, leaf = list(mem), []
        while todo:
            q = todo.pop()
            sub = py.members(q) if q != pq else []
            (todo.extend(sub) if sub else leaf.append(q))
        by = {}
        for q in leaf:
            for t in py.tags(q, key):
                by.setdefault(t, []).append(q)
        rtags = {}
        for tags, fs in objs:
            for k, v in tags:
                if k == key:
                    rtags.setdefault(v, []).append((tags, fs))
        if not rtags:
            raise Anchor(f"{rt} is not tagged with '{key}' any more")
        ntag += len(rtags)
        for v, l in sorted(rtags.items()):
            if v not in by:
                if (key, v) not in GAPS:
                    rep.violation(f"tag-unknown:{key}={v}", pq, f"Rust writes {key}={v!r} for {rt.split('::')[-1]}; no class of the Python union {pq} reads it")
                continue
            for tags, fs in l:
                others = [t for t in tags if t[0] != key]
                qs = [q for q in by[v] if all(t[1] in py.tags(q, t[0]) for t in others if t[0])]
                if not qs:
                    rep.violation(f"tag-unknown:{key}={v}:{sorted(others)}", pq, f"Rust writes {sorted(tags)}; no class of the Python union {pq} reads it")
                    continue
                if fs is None:
                    continue
                nobj += 1
                fields(f"{key}={v}", {n: x for n, x in fs.items()}, py.fields(qs[0]), {key, "parent"} | {t[0] for t in tags})
        for v in by:
            if v not in rtags and (key, v) not in OLD:
                rep.violation(f"tag-unwritten:{key}={v}", pq, f"Python reads and writes {key}={v!r} ({by[v]}), which Rust does not know")
        # every class with the tag belongs to the union
        for q in py.pk.classes:
            if q.startswith(S) and q not in leaf and py.tags(q, key) and not py.members(q) and not q.endswith(".BaseValue"):
                ts = py.tags(q, key)
                if len(ts) == 1 and ts & set(rtags):
                    rep.violation(f"not-in-union:{q}", q, f"{q} has the tag {key}={ts} and is not a member of {pq}")
    for rt, pq, only in OBJECTS:
        objs = rs.objects(rt)
        fs = {}
        for _, f in objs:
            if f is None:
                raise Anchor(f"no Serialize implementation of {rt} found")
            fs.update(f)
        if not fs:
            raise Anchor(f"{rt} writes no fields")
        nobj += 1
        py.klass(pq)
        fields(pq.split(".")[-1], fs, py.fields(pq), only)
    for rt, pq in ENUMS:
        sh = {s.tag[1] for s in rs.g.of(rt) or ()}
        m, c = py.klass(pq)
        ps = {s.value.value for s in c.body if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant)}
        ntag += len(sh)
        if sh != ps:
            rep.violation(f"enum:{pq}", pq, f"Rust writes {sorted(sh)}, Python {sorted(ps)}")
    rep.rule("json-tags", "every tag Rust writes is read by a Python class of the union and the other way round", ntag, 45)
    rep.rule("json-fields", "every field Rust writes has a Python field of the same name and kind; every required Python field is written by Rust", nfield, 70)
    rep.count("json_objects", nobj)

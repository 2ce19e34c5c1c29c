"""The JSON shape of a Rust type, read from the MIR of its (derived or written)
Serialize implementation."""
import re


class Shape:
    """one object that can be written: field name -> (type, may be left out); nested: types whose fields are merged in"""

    def __init__(self, tag=None):
        self.tag, self.fields, self.nested, self.order = tag, {}, [], []

    def __repr__(self):
        return f"{self.tag} {self.fields} +{self.nested}"


def strip(t):
    t = re.sub(r"^(?:&(?:'[a-z_]+ |mut )?)+", "", t or "")
    for w in ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::borrow::Cow"):
        if t.startswith(w + "<"):
            return strip(re.sub(r"^'[a-z_]+, ", "", t[len(w) + 1:-1]))
    return t


def konst(mir, op, depth=0):
    """the string an operand is"""
    if op[0] == "k":
        return op[1].get("str")
    loc = op[1][0]
    if depth > 6:
        return None
    for b in mir["blocks"]:
        for s in (b[0] if b else ()):
            if s[0] == [loc] or s[0] and s[0][0] == loc and len(s[0]) == 1:
                r = s[1]
                if r[0] == "use":
                    return konst(mir, r[1], depth + 1)
                if r[0] == "ref":
                    return konst(mir, ["c", r[2]], depth + 1)
    return None


def succ(t):
    if t[0] == "call":
        return [t[4]] if isinstance(t[4], int) else []
    if t[0] == "goto":
        return [t[1]]
    if t[0] == "switch":
        return [b for _, b in t[2]] + ([t[3]] if isinstance(t[3], int) else [])
    if t[0] == "assert":
        return [t[3]] if isinstance(t[3], int) else []
    if t[0] == "drop":
        return [x for x in t[1:] if isinstance(x, int)][:1]
    return [x for x in t[1:] if isinstance(x, int)]


def shapes(f):
    """the objects a serialize function writes"""
    mir = f["mir"]
    bl = mir["blocks"]
    out = []
    for k, b in enumerate(bl):
        if not b or b[1][0] != "call":
            continue
        c = b[1][1]
        n = c.get("n")
        if n == "serialize_tagged_newtype":
            a = b[1][2]
            ss = [konst(mir, x) for x in a]
            ss = [x for x in ss if x is not None]
            s = Shape((ss[-2], ss[-1]))
            s.nested.append(strip(c["g"][-1]))
            out.append(s)
        elif n in ("serialize_struct", "serialize_map"):
            s = Shape()
            seen, todo = {k}, [b[1][4]]
            ser, skip = set(), set()
            while todo:
                x = todo.pop()
                if x in seen or not isinstance(x, int) or not bl[x]:
                    continue
                seen.add(x)
                t = bl[x][1]
                m = t[1].get("n") if t[0] == "call" else None
                if m in ("serialize_field", "serialize_entry"):
                    name = konst(mir, t[2][1])
                    v = konst(mir, t[2][2])
                    ty = strip(t[1]["g"][-1])
                    if name is not None:
                        ser.add(name)
                        s.order.append(name)
                        if v is not None and s.tag is None:
                            s.tag = (name, v)
                        else:
                            s.fields[name] = (ty, False)
                elif m == "skip_field":
                    skip.add(konst(mir, t[2][1]))
                elif m == "serialize" and "FlatMapSerializer" in str(t[1]):
                    s.nested.append(strip(t[1].get("st") or t[1]["g"][0]))
                elif m == "end":
                    continue
                todo += succ(t)
            for x in skip:
                if x in s.fields:
                    s.fields[x] = (s.fields[x][0], True)
            out.append(s)
        elif n == "serialize_unit_variant":
            ss = [x for x in (konst(mir, a) for a in b[1][2]) if x is not None]
            s = Shape(("", ss[-1]))
            out.append(s)
        elif n == "serialize_newtype_variant":
            ss = [x for x in (konst(mir, a) for a in b[1][2]) if x is not None]
            s = Shape((None, ss[-1]))
            s.nested.append(strip(c["g"][-1]))
            out.append(s)
    return out


class Grammar:
    def __init__(self, facts):
        self.F = facts
        self.by_type = {}
        for i in facts.ids():
            if i.endswith(" as serde_core::ser::Serialize>::serialize") and not "::_::" in i.split(" as ")[0]:
                t = i[1:].split(" as serde_core::ser::Serialize>")[0]
                self.by_type.setdefault(re.sub(r"<.*", "", t), i)
        self.memo = {}

    def of(self, t):
        t = strip(t)
        k = re.sub(r"<.*", "", t)
        if k not in self.memo:
            i = self.by_type.get(k)
            f = self.F.get(i) if i else None
            self.memo[k] = shapes(f) if f and f.get("mir") else None
        return self.memo[k]


def owner_of(i):
    """the type a generated (de)serialisation function belongs to"""
    m = re.search(r"_::<impl serde_core::(?:de|ser)::\w+(?:<'\w+>)? for ([\w:]+)", i)
    if m:
        return m.group(1)
    m = re.match(r"<([\w:]+)(?:<.*?>)? as serde_core::(?:de|ser)::(?:Des|S)erialize(?:<'\w+>)?>::", i)
    return m.group(1) if m else None


OWNCALL = re.compile(r"^(?:<)?(hugr_\w+)::")


def reading(facts):
    """type -> what its Deserialize implementation accepts"""
    out = {}
    for i in facts.ids():
        if "serde_core::de::" not in i and "serde_core::ser::" not in i:
            continue
        t = owner_of(i)
        if t is None:
            continue
        o = out.setdefault(t, {"names": set(), "required": set(), "filled in": 0, "through": set()})
        f = facts.get(i)
        if "::FIELDS" in i or "::VARIANTS" in i:
            if "serde_core::de" in i:
                collect(f, o["names"])
            continue
        for b in (f.get("mir") or {}).get("blocks", ()):
            if not b or b[1][0] != "call":
                continue
            c = b[1][1]
            n = c.get("n")
            if n == "missing_field" and "serde_core::de" in i:
                for a in b[1][2]:
                    s = konst(f["mir"], a)
                    if s is not None:
                        o["required"].add(s)
            elif n == "default" and "visit_map" in i:
                o["filled in"] += 1
            p = c.get("r") or c.get("p") or ""
            if OWNCALL.match(p) and "::_::" not in p and "serde_core" not in p:
                o["through"].add(re.sub(r"<.*?>", "", p))
    return out


def collect(x, out):
    if isinstance(x, dict):
        if isinstance(x.get("str"), str):
            out.add(x["str"])
        for v in x.values():
            collect(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            collect(v, out)

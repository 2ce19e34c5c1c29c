"""P23: published definitions of the standard extensions, in both copies, against the code."""
import json, os, re
from lib import pyrules
from lib.pyconf import repo
from lib.report import Anchor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# operation enumerations of the Rust side -> the extensions that offer all of its operations
ENUMS = {
    "extension::prelude::TupleOpDef": ["prelude"],
    "std_extensions::arithmetic::conversions::ConvertOpDef": ["arithmetic.conversions"],
    "std_extensions::arithmetic::float_ops::FloatOps": ["arithmetic.float"],
    "std_extensions::arithmetic::int_ops::IntOpDef": ["arithmetic.int"],
    "std_extensions::collections::array::array_op::GenericArrayOpDef": ["collections.array", "collections.value_array", "collections.borrow_arr"],
    "std_extensions::collections::borrow_array::BArrayUnsafeOpDef": ["collections.borrow_arr"],
    "std_extensions::collections::list::ListOp": ["collections.list"],
    "std_extensions::collections::static_array::StaticArrayOpDef": ["collections.static_array"],
    "std_extensions::logic::LogicOp": ["logic"],
    "std_extensions::ptr::PtrOpDef": ["ptr"],
}


def strings(x, out):
    if isinstance(x, dict):
        if isinstance(x.get("str"), str):
            out.add(x["str"])
        for v in x.values():
            strings(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            strings(v, out)
    return out


def plain(j):
    """the definition without what no program can observe"""
    if isinstance(j, dict):
        return {k: plain(v) for k, v in j.items() if k != "description" and not (k in ("lower_funcs", "misc") and not v)}
    if isinstance(j, list):
        return [plain(x) for x in j]
    return j


def where(a, b, p=""):
    """first place where two documents differ"""
    if type(a) is not type(b):
        return p, a, b
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return p + "/" + k, a.get(k, "absent"), b.get(k, "absent")
            d = where(a[k], b[k], p + "/" + k)
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return p, f"{len(a)} entries", f"{len(b)} entries"
        for n, (x, y) in enumerate(zip(a, b)):
            d = where(x, y, f"{p}/{n}")
            if d:
                return d
        return None
    return None if a == b else (p, a, b)


def load(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith(".json"):
                p = os.path.join(d, f)
                try:
                    out[os.path.relpath(p, root)] = json.load(open(p))
                except ValueError as e:
                    raise Anchor(f"{p}: {e}")
    return out


def run(cur, rep):
    spec = load(os.path.join(repo(), "specification", "std_extensions"))
    pyd = load(os.path.join(repo(), "hugr-py", "src", "hugr", "std", "_json_defs"))
    ref = load(os.path.join(HERE, "spec", "std_json"))
    by_name = {j["name"]: (p, plain(j)) for p, j in ref.items()}
    nops = 0
    for p, j in sorted(spec.items()):
        q = plain(j)
        if p not in pyd:
            rep.violation(f"json:missing:{p}", "hugr-py/src/hugr/std/_json_defs/" + p, "the Python package does not ship this definition")
        else:
            d = where(q, plain(pyd[p]))
            if d:
                rep.violation(f"json:copies:{p}", "hugr-py/src/hugr/std/_json_defs/" + p,
                              f"the copy shipped with Python differs from the published definition at {d[0]}", [str(d[1])[:400], str(d[2])[:400]])
        nops += len(j.get("operations", {}))
        for kind in ("operations", "types"):
            for n, o in j.get(kind, {}).items():
                if o.get("name") != n or o.get("extension") != j["name"]:
                    rep.violation(f"json:name:{j['name']}:{n}", "specification/std_extensions/" + p,
                                  f"{kind[:-1]} listed as {n} calls itself {o.get('extension')}.{o.get('name')}")
        if j["name"] in by_name:
            d = where(by_name[j["name"]][1], q)
            if d:
                rep.violation(f"json:definition:{j['name']}", "specification/std_extensions/" + p,
                              f"the published definition differs from the reviewed one at {d[0]}", [str(d[1])[:400], str(d[2])[:400]])
    for n, (p, _) in by_name.items():
        if not any(j["name"] == n for j in spec.values()):
            rep.violation(f"json:gone:{n}", "specification/std_extensions", f"extension {n} is no longer published")
    names = {j["name"]: set(j["operations"]) for j in spec.values()}
    n = 0
    covered = {x: set() for x in names}
    for i in cur.ids():
        m = re.match(r"<&'static str as core::convert::From<&'[\w]+ hugr_core::([\w:]+)", i)
        if not m:
            continue
        en = m.group(1)
        if en not in ENUMS:
            continue
        ss = {s for s in strings(cur.get(i)["mir"], set()) if re.fullmatch(r"\w+", s)}
        n += len(ss)
        for x in ENUMS[en]:
            covered[x] |= ss
            for s in sorted(ss - names.get(x, set())):
                rep.violation(f"op:unpublished:{x}:{s}", "hugr-core", f"operation {s} of {en} is not in the published definition of {x}")
    # operations that are not in an enumeration are named by constants
    rest = {(x, s) for x in names for s in names[x] - covered[x]}
    if len(rest) > 45:
        raise Anchor("enumerations of standard operations")
    rep.rule("published-operations", "the operations the code defines are those published, by name, and both published copies are the same", nops + n, 150)
    rep.count("operation_names_from_code", n)
    rep.count("published_files", len(spec))
    pyrules.conform(rep, "P23")

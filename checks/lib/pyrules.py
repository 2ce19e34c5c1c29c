"""Which Python functions, classes and constants belong to which property, and
their comparison with the reviewed behaviour."""
import os, re
from . import pyconf
from .report import Anchor

SER = (r"_to_serial\w*|_serial\w*|deserialize|_from_serial\w*|to_json|load_json|from_json|to_str|from_str|to_bytes|from_bytes|_to_serial_root|"
       r"resolve|_resolve\w*|_from_raw|to_raw|from_raw|_make_header|_split_header")

# property -> [(file pattern, function name pattern or None, excluded function name pattern or None)]
SCOPE = {
    "P21": [(r"_serialization/.*", None, None), (r"(package|envelope|ext)\.py", None, r"to_model"),
            (r".*", SER, None), (r"std/.*", r"to_value|to_custom_\w*|_value_\w*|type_args?|custom_op|from_ext|op_def|cached_\w*", None)],
    "P22": [(r"model/.*", None, None), (r".*", r"to_model|from_model", None)],
    "P23": [(r"std/.*", None, r"to_model")],
    "P31": [(r"hugr/(base|node_port|__init__)\.py", None, r"to_model|" + SER), (r"(utils|exceptions)\.py", None, None),
            (r"passes/.*", None, None)],
    "P32": [(r"(ops|tys|val)\.py", None, r"to_model|" + SER), (r"build/.*", None, None)],
    "P33": [(r"qsystem/.*", None, None), (r"cli\.py", None, None), (r"hugr/render\.py", None, None)],
}
# property -> files of which the classes (fields, bases, constants) are compared
CLASSES = {
    "P21": r"_serialization/.*|(package|envelope|ext)\.py",
    "P22": r"model/.*",
    "P23": r"std/.*",
    "P31": r"hugr/(base|node_port)\.py|(utils|exceptions)\.py|passes/.*",
    "P32": r"(ops|tys|val)\.py|build/.*",
    "P33": r"qsystem/.*|cli\.py|hugr/render\.py",
}
FLOOR = {"P21": 200, "P22": 100, "P23": 40, "P31": 90, "P32": 300, "P33": 35}
_conf = []


def conformance():
    if not _conf:
        _conf.append(pyconf.PyConformance())
    return _conf[0]



def in_scope(pid, path, name):
    for a, b, c in SCOPE[pid]:
        if re.fullmatch(a, path) and (b is None or re.fullmatch(b, name)) and not (c and re.fullmatch(c, name)):
            return True
    return False


def place(pk, f):
    root = os.path.dirname(pk.mods["hugr"].path)
    return os.path.relpath(f.mod.path, root)


def owner(pk, m):
    return os.path.relpath(m.path, os.path.dirname(pk.mods["hugr"].path))


def conform(rep, pid):
    """every function, class and constant of the property does what was reviewed"""
    C = conformance()
    ids = [i for i, f in sorted(C.r.funcs.items()) if in_scope(pid, place(C.r, f), f.node.name)]
    p0, d0 = C.paths, len(C.deep)
    for i in ids:
        d = C.check(i)
        f = C.c.funcs.get(i) or C.r.funcs[i]
        where = "hugr-py/src/hugr/" + place(C.c if i in C.c.funcs else C.r, f)
        if d:
            rep.violation("py:" + i, f"{where}:{f.node.lineno}", f"{i} " + d[0], [str(x)[:1500] for x in d[1]])
    for i, f in sorted(C.c.funcs.items()):
        if i not in C.r.funcs and in_scope(pid, place(C.c, f), f.node.name):
            d = C.check_new(i)
            if d:
                rep.violation("py:new:" + i, f"hugr-py/src/hugr/{place(C.c, f)}:{f.node.lineno}", f"{i} " + d[0], d[1])
    rep.rule("python-functions", "every path of the function (conditions, result or exception, effects on its arguments and on "
             "objects, calls) is one of the reviewed function and the other way round, with helpers inlined", len(ids), FLOOR[pid])
    rep.count("python_paths_compared", C.paths - p0)
    rep.count("python_functions_compared_through_helpers", len(C.deep) - d0)
    n = 0
    pat = re.compile(CLASSES[pid])
    for q, (m, c) in sorted(C.r.classes.items()):
        if pat.fullmatch(owner(C.r, m)):
            n += 1
            d = C.check_class(q)
            if d:
                rep.violation("py:class:" + q, f"hugr-py/src/hugr/{owner(C.r, m)}", f"{q}: {d[0]}", d[1])
    g = 0
    for q, (m, s) in sorted(C.r.globals.items()):
        if pat.fullmatch(owner(C.r, m)):
            g += 1
            d = C.check_global(q)
            if d:
                rep.violation("py:constant:" + q, f"hugr-py/src/hugr/{owner(C.r, m)}", f"{q} {d[0]}", d[1])
    rep.count("python_classes", n)
    rep.count("python_constants", g)
    for i in ids[:: max(1, len(ids) // 4)][:4]:
        s = C.summ("r", i, 0)
        if s:
            rep.sample(f"{i}: {pyconf.show_path(next(iter(s)))}"[:400])
    for u in C.undecided:
        rep.note(f"not decided (too many paths): {u}")

"""P05: what the generated and written (de)serialisation code writes is what it reads, and is what was reviewed."""
import re
from lib import serde
from lib.contract import ref_facts
from lib.report import Anchor
from rules.p21 import rkind



def shape_facts(g, t):
    sh = g.of(t)
    if sh is None:
        return None
    out = set()
    for s in sh:
        fs = frozenset((n, frozenset(rkind(ty)), opt) for n, (ty, opt) in s.fields.items())
        ns = frozenset(re.sub(r"<.*", "", re.sub(r".*__SerializeWith.*", "with", n)) for n in s.nested)
        out.add((s.tag, fs, ns))
    return out


def show(s):
    return "; ".join(sorted(f"{t} {sorted((n, sorted(k), o) for n, k, o in f)} +{sorted(n)}" for t, f, n in s))[:900]


def run(cur, rep):
    ref = ref_facts()
    gr, gc = serde.Grammar(ref), serde.Grammar(cur)
    n = 0
    for t in sorted(gr.by_type):
        if not t.startswith("hugr_core"):
            continue
        a = shape_facts(gr, t)
        if not a:
            continue
        n += 1
        if t not in gc.by_type:
            if ref.get(gr.by_type[t]).get("derived") and "::_::" not in t:
                rep.violation(f"writes:{t}", t, "is no longer serialisable")
            continue
        b = shape_facts(gc, t)
        if b != a and b is not None:
            rep.violation(f"writes:{t}", cur.get(gc.by_type[t]).get("span", "?"), f"the JSON written for {t} is another than the reviewed one",
                          [show(a - b), show(b - a)])
    rr, rc = serde.reading(ref), serde.reading(cur)
    m = 0
    for t in sorted(rr):
        if not t.startswith("hugr_core") or t not in rc:
            continue
        m += 1
        a, b = rr[t], rc[t]
        both = {f for f in a["through"] | b["through"] if exists(ref, f) and exists(cur, f)}
        for k in ("names", "required", "filled in"):
            if a[k] != b[k]:
                rep.violation(f"reads:{t}:{k}", t, f"reading {t}: the field names {k} are others than the reviewed ones",
                              [str(sorted(a[k]) if isinstance(a[k], set) else a[k]), str(sorted(b[k]) if isinstance(b[k], set) else b[k])])
        if a["through"] & both != b["through"] & both:
            rep.violation(f"reads:{t}:through", t, f"{t} is converted by other functions than the reviewed ones",
                          [str(sorted(a["through"] & both)), str(sorted(b["through"] & both))])
    # what is written can be read again
    k = 0
    for t, i in sorted(gc.by_type.items()):
        if not t.startswith("hugr_core") or t not in rc or not rc[t]["names"]:
            continue
        for s in gc.of(t) or ():
            for name in s.fields:
                k += 1
                if name not in rc[t]["names"]:
                    rep.violation(f"unread:{t}:{name}", t, f"{t} is written with the field '{name}', which its reader does not know")
    rep.rule("json-shape", "the fields, tags and omissions in the JSON written for a type are the reviewed ones", n, 60)
    rep.rule("json-reading", "the fields read, required and filled in for a type are the reviewed ones", m, 60)
    rep.rule("written-is-read", "every field a type is written with is one its reader knows", k, 60)



def exists(F, f):
    if id(F) not in _names:
        _names[id(F)] = {re.sub(r"<.*?>", "", i) for i in F.ids()}
    return f in _names[id(F)]


_names = {}

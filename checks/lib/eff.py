"""Effects: constructions, calls and writes reachable from a root, with conditions."""
from .an import *
from .an import Frame, fs, _tup, UNK, YIELDS

LAM = [lambda i=i: fs(("lam", i)) for i in (1, 2, 3, 4, 5)]

from .cond import *

# ---------------------------------------------------------------- effects
class Effect:
    __slots__ = ("kind", "name", "frame", "bb", "ops", "line", "names", "callee", "dest", "via")

    def __init__(self, kind, name, frame, bb, ops, line, names=None, callee=None, dest=None):
        self.dest, self.via = dest, False
        self.kind, self.name, self.frame, self.bb, self.ops, self.line, self.names = kind, name, frame, bb, ops, line, names
        self.callee = callee

    def where(self):
        sp = self.frame.fn.rec.get("span", "?").rsplit(":", 1)[0]
        return f"{sp}:{self.line}"

    def args(self, an):
        return [an.operand(self.frame, o) for o in self.ops]


def walk(an, frame, want, out=None, seen=None, frames=None):
    """Collect effects reachable from `frame`.
       want(kind, name, callee) -> bool ; kinds: ctor, call"""
    if out is None:
        out, seen = [], set()
    key = (frame.fn.id, id(frame))
    if key in seen:
        return out
    seen.add(key)
    if frames is not None:
        frames.append(frame)
    fn = frame.fn
    for bi in sorted(fn.reach):
        st, t = fn.blocks[bi]
        for s in st:
            rv = s[1]
            if rv[0] == "agg" and rv[1] == "adt":
                nm = short(rv[3]) + ("::" + rv[4] if rv[4] else "")
                if want("ctor", nm, None):
                    out.append(Effect("ctor", nm, frame, bi, rv[2], s[2], rv[5], dest=s[0]))
            elif rv[0] == "agg" and rv[1] == "closure":
                _walk_closure(an, frame, rv[3], _tup(rv[2]), bi, s[0][0], want, out, seen, frames)
            for op in _rv_ops(rv):
                if op[0] == "k" and "clos" in op[1]:
                    _walk_closure(an, frame, op[1]["clos"], None, bi, None, want, out, seen, frames)
        if t[0] == "call":
            c = t[1]
            if "ctor" in c:
                nm = short(c["ctor"]) + ("::" + c["ctorv"] if "ctorv" in c else "")
                if want("ctor", nm, None):
                    out.append(Effect("ctor", nm, frame, bi, t[2], t[5], [str(i) for i in range(len(t[2]))], dest=t[3]))
                continue
            nm = callee_name(c)
            if want("call", nm, c):
                out.append(Effect("call", nm, frame, bi, t[2], t[5], None, c))
            for op in t[2]:
                if op[0] == "k":
                    if "clos" in op[1]:
                        _walk_closure(an, frame, op[1]["clos"], None, bi, None, want, out, seen, frames, bi)
                    elif "fn" in op[1]:
                        fc = op[1]["fn"]
                        if not (is_std(c["p"]) or ("tr" in c and is_std(c["tr"]))):
                            continue      # handed on, not run here
                        if "ctor" in fc:
                            nm = short(fc["ctor"]) + ("::" + fc["ctorv"] if "ctorv" in fc else "")
                            if want("ctor", nm, None):
                                out.append(Effect("ctor", nm, frame, bi, [t[2][0]], t[5], ["0"]))
                                out[-1].via = True
                        else:
                            nm = callee_name(fc)
                            if want("call", nm, fc):
                                out.append(Effect("call", nm, frame, bi, [t[2][0]], t[5], None, fc))
                                out[-1].via = True
                            tid = an.target(fc)
                            if tid and an._inl_id(tid, nm, frame):
                                an.call(frame, bi)
                                hit = False
                                for k, v in list(frame.memo.items()):
                                    if isinstance(k, tuple) and k[0] == "subfn" and k[1] == bi and k[2] == tid:
                                        walk(an, v, want, out, seen, frames)
                                        hit = True
                                if not hit:
                                    v = Frame(an.P.fn(tid), [(lambda: fs(UNK))] * an.P.fn(tid).nargs, frame, bi)
                                    walk(an, v, want, out, seen, frames)
            if c.get("n") in CALLS and t[2] and (is_std(c["p"]) or ("tr" in c and is_std(c["tr"]))):
                # a closure made elsewhere, run here
                an.call(frame, bi)
                for e in an.operand(frame, t[2][0]):
                    if e[0] == "closure":
                        for k, v in list(e[2].memo.items()):
                            if isinstance(k, tuple) and k[0] == "clos" and k[1] == e[1] and isinstance(v, Frame) \
                                    and v.consumer == (frame, bi):
                                walk(an, v, want, out, seen, frames)
            tid = an.should_inline(c, frame)
            if tid:
                walk(an, an.sub(frame, bi, tid), want, out, seen, frames)
    return out


def _rv_ops(rv):
    if rv[0] == "use":
        return [rv[1]]
    if rv[0] == "agg":
        return rv[2]
    if rv[0] == "cast":
        return [rv[2]]
    return []


def _walk_closure(an, frame, cid, ops, bi, local, want, out, seen, frames=None, at=None):
    """find who runs the closure, then walk its body in that context"""
    fn = frame.fn
    uses = []
    if local is not None:
        todo, done = [local], set()
        while todo:
            l = todo.pop()
            if l in done:
                continue
            done.add(l)
            uses += fn.call_uses.get(l, [])
            for b2 in fn.reach:
                for s in fn.blocks[b2][0]:
                    rv = s[1]
                    src = None
                    if rv[0] == "use" and rv[1][0] in ("c", "m") and rv[1][1] == [l]:
                        src = s[0][0]
                    elif rv[0] == "ref" and rv[2] == [l]:
                        src = s[0][0]
                    elif rv[0] == "cast" and rv[2][0] in ("c", "m") and rv[2][1] == [l]:
                        src = s[0][0]
                    if src is not None and len(s[0]) == 1:
                        todo.append(src)
    elif at is not None:
        uses = [(at, -1)]
    ran = False
    for (ub, ai) in uses:
        an.call(frame, ub)
        t = fn.blocks[ub][1]
        cfs = []
        for k, v in list(frame.memo.items()):
            if isinstance(k, tuple) and k[0] == "clos" and k[1] == cid and isinstance(v, Frame) \
                    and v.consumer is not None and v.consumer[0] is frame and v.consumer[1] == ub:
                cfs.append(v)
        if not cfs:
            c = t[1]
            std = is_std(c["p"]) or (("tr" in c) and is_std(c["tr"]))
            rcv = an.operand(frame, t[2][0]) if t[2] else fs(UNK)
            cf = an.closure(frame, cid, ops, [lambda r=rcv: r, lambda r=rcv: r] if std else LAM,
                            bi, (frame, ub), tag=("walk", ub))
            if cf is not None and (not std or c.get("n") in YIELDS):
                an.loose.append(cf)
            if cf is not None:
                cfs.append(cf)
        for cf in cfs:
            ran = True
            walk(an, cf, want, out, seen, frames)
    if not ran:
        cf = an.closure(frame, cid, ops, LAM, bi, None, tag=("walk", None))
        if cf is not None:
            an.loose.append(cf)
            walk(an, cf, want, out, seen, frames)
    return out

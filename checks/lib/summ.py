"""Semantic summaries of functions: what is returned, constructed, called and
written, and under which conditions, in terms of the function's parameters."""
from .an import *
from .an import Frame, fs, UNK
from .cond import *
from .eff import walk, Effect, _walk_closure

STDMUT = set("""insert remove push pop clear extend retain take swap drain append push_back push_front pop_front pop_back
truncate resize sort sort_by sort_by_key dedup reverse entry or_insert or_insert_with or_default get_or_insert_with
shift_remove swap_remove replace write_all flush write write_str set extend_from_slice insert_full and_modify
shift_insert remove_entry or_insert_default finish split_off push_str get_mut""".split())
SEQ = set("push push_back push_front extend truncate sort sort_by clear drain write_all write_str write flush pop pop_front pop_back".split())
CELLMUT = set("set store swap replace take fetch_add fetch_sub fetch_or fetch_and".split())
ENTRY = re.compile(r"(VacantEntry|OccupiedEntry|::Entry)<")
NOISE_NAMES = set("fmt Debug::fmt Display::fmt".split())


PICKS = {"next": "first", "first": "first", "exactly_one": "exactly one", "at_most_one": "at most one", "reverse": "reverse",
         "truncate": "truncate", "retain": "retain", "retain_mut": "retain", "clear": "clear", "unique": "unique", "unique_by": "unique",
         "dedup": "unique", "dedup_by": "unique", "dedup_by_key": "unique", "sort": "sort", "sorted": "sort"}
for _n in ("by", "by_key", "unstable", "unstable_by", "unstable_by_key", "by_cached_key"):
    PICKS["sort_" + _n] = PICKS["sorted_" + _n] = "sort"


def _flat_ops(rv):
    out = []
    for x in rv[1:]:
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("c", "m", "k"):
                out.append(x)
            else:
                out += [o for o in x if isinstance(o, list) and len(o) == 2 and o[0] in ("c", "m", "k")]
    return out


class Summary:
    def __init__(self, F, root_id, inline=None, opaque=(), depth=7, tdepth=5, policy=None, vocab=None):
        self.F = F
        self.an = An(F, inline=inline, opaque=opaque, depth=depth, policy=policy, vocab=vocab)
        self.cond = Cond(self.an, tdepth)
        self.root = self.an.root(root_id)
        self.lines = {}      # (kind, name, args) -> formula
        self.site = {}
        self.events = []     # (text, receivers, is it an error, frame, block)
        self.arrays = set()  # element texts of array literals, in order
        self.picks = set()   # (how, text): collections used other than element by element
        self.as_ = "ret"
        self._returns()
        self._effects()
        self._yields()

    def add(self, kind, name, args, f, where):
        if f == FALSE:
            return
        if "∅" in name or any("∅" in a for a in args):
            return      # an alternative that has no value
        k = (kind, name, tuple(args))
        if k in self.lines:
            self.lines[k] = OR([self.lines[k], f])
        else:
            self.lines[k] = f
        self.site.setdefault(k, where)

    def txt(self, e):
        return self.cond.text(e)

    def _errish(self, frame, op, via=False):
        """an operand that is itself an error"""
        if op[0] == "k" or len(op[1]) != 1:
            return False
        t = frame.fn.locals[op[1][0]][0]
        if via and t.startswith("core::result::Result<"):
            d, k = 0, None
            for j, ch in enumerate(t):
                d += (ch in "<([") - (ch in ">)]" and t[j - 1] != "-")
                if ch == "," and d == 1:
                    k = j
            t = t[k + 2:-1] if k else t
        m = re.match(r"^(?:alloc::boxed::Box<|alloc::sync::Arc<)*([a-z_0-9:]+::[A-Za-z0-9_]+)", t)
        return bool(m) and short(m.group(1)) in self._err_adts()

    def args(self, e):
        return [self.arg(e.frame, o) for o in e.ops]

    def arg(self, frame, op):
        """like An.operand, with computed booleans as a choice between true and false"""
        if op[0] != "k" and len(op[1]) == 1:
            fn, l = frame.fn, op[1][0]
            if fn.locals[l][0] == "bool" and (l > fn.nargs or frame.args is not None):
                return self.an.choice(frame, ("bool", l), [
                    (lambda: fs(("const", "true", None)), ("bool", frame, op[1], True)),
                    (lambda: fs(("const", "false", None)), ("bool", frame, op[1], False))])
        return self.an.operand(frame, op)

    def expand(self, f, evalfn):
        """[(values, condition)]: one entry for each way the alternatives in the values can fall out"""
        an = self.an
        base, cps = an.choices(evalfn)
        if not cps:
            return [(base, f)]
        out = []
        if self._expand(f, evalfn, {}, base, cps, out, 0) and out:
            return out
        return [(base, f)]

    def _expand(self, f, evalfn, pins, vals, cps, out, d):
        cps = [c for c in cps if c not in pins]
        if not cps:
            if any(not v for v in vals):
                return True
            k = tuple(self.txt(v) for v in vals)
            for i, (o, g) in enumerate(out):
                if o == vals or tuple(self.txt(v) for v in o) == k:
                    out[i] = (o, OR([g, f]))
                    return not many(out[i][1])
            out.append((vals, f))
            return len(out) <= 32
        if d > 6:
            return False
        an = self.an
        cp = cps[0]
        alts = an.cps[cp]
        for i, c in enumerate(alts):
            g = AND(f, self._altcond(c))
            if many(g):
                return False
            if g == FALSE:
                continue
            p2 = dict(pins)
            p2[cp] = i
            v2, c2 = an.with_pins(p2, lambda: an.choices(evalfn))
            if not self._expand(g, evalfn, p2, v2, c2, out, d + 1):
                return False
        return True

    def _altcond(self, c):
        C = self.cond
        if c[0] == "blk":
            g = C.block(c[1], c[2])
            for b in c[3]:
                g = AND(g, NOT(C.block(c[1], b)))
            return g
        if c[0] == "var":
            return C.variant(c[1], c[2], None, {c[3]}, None, c[4])
        if c[0] == "bool":
            return C.boolean(c[1], c[2], c[3])
        return TRUE

    # ---- returns
    def _returns(self):
        self.rty = self.root.fn.locals[0][0]
        if self.rty == "bool":
            self.add(self.as_, "true", (), self.cond.boolean(self.root, [0], True), self.where(self.root, 0))
            return
        if self.rty.startswith("core::result::Result<"):
            self._errs(self.root, [0], set(), 0)
            self._ret(self.root, 0, TRUE, set(), 0, "res")
        elif self.rty.startswith("core::option::Option<"):
            self._ret(self.root, 0, TRUE, set(), 0, "opt")
        else:
            self._ret(self.root, 0, TRUE, set(), 0, "")

    def _yields(self):
        """what closures that run out of sight evaluate to"""
        self.as_ = "yields"
        done = set()
        for cf in self.an.loose:
            if id(cf) in done:
                continue
            done.add(id(cf))
            if cf.consumer is None and cf.fn.id in self.an.ranc:
                continue     # run by another closure
            f = self.cond.full(cf.parent, cf.site) if cf.parent is not None and cf.site is not None else TRUE
            self.rty = cf.fn.locals[0][0]
            if self.rty == "()":
                continue
            if self.rty == "bool":
                self.add("yields", "true", (), AND(f, self.cond.boolean(cf, [0], True)), self.where(cf, 0))
            elif self.rty.startswith("core::result::Result<"):
                self._errs(cf, [0], set(), 0)
                self._ret(cf, 0, f, set(), 0, "res")
            else:
                self._ret(cf, 0, f, set(), 0, "opt" if self.rty.startswith("core::option::Option<") else "")

    def where(self, frame, line):
        return frame.fn.rec.get("span", "?").rsplit(":", 1)[0] + f":{line}"

    def _ret(self, frame, local, f, seen, d, mode):
        """mode: '' plain value, 'res' Result, 'opt' Option (payload handling)"""
        key = (id(frame), local, mode)
        if key in seen or d > 12:
            return
        seen.add(key)
        fn = frame.fn
        ds = fn.defs.get(local, [])
        parts = fn.parts.get(local, [])
        if not ds or parts or (local <= fn.nargs and local != 0):
            self._val(frame, [local], lambda: self.an.local(frame, local), f, 0, mode)
            return
        for (bi, k, payload, ln) in ds:
            blk = self.cond.block(frame, bi)
            g = AND(f, blk)
            if k == "rv":
                rv = payload
                if rv[0] == "use" and rv[1][0] in ("c", "m") and len(rv[1][1]) == 1 and rv[1][1][0] > fn.nargs:
                    self._ret(frame, rv[1][1][0], g, seen, d + 1, mode)
                    continue
                if mode and rv[0] == "agg" and rv[1] == "adt" and rv[3] in OPTRES:
                    if rv[4] == "Err":
                        continue
                    if rv[4] == "None":
                        self.add(self.as_, "none", (), g, self.where(frame, ln))
                        continue
                    if mode == "res" and self.rty.startswith("core::result::Result<()"):
                        self.add(self.as_, "()", (), TRUE, self.where(frame, ln))
                        continue
                    op = rv[2][0]
                    if op[0] in ("c", "m") and len(op[1]) == 1 and fn.locals[op[1][0]][0] == "bool":
                        for b in (True, False):
                            self.add(self.as_, "true" if b else "false", (), AND(g, self.cond.boolean(frame, op[1], b)),
                                     self.where(frame, ln))
                        continue
                    if op[0] in ("c", "m") and len(op[1]) == 1 and op[1][0] > fn.nargs and len(fn.defs.get(op[1][0], [])) > 1:
                        self._ret(frame, op[1][0], g, seen, d + 1, "")
                        continue
                    self._val(frame, op[1] if op[0] in ("c", "m") else None, lambda: self.an.operand(frame, op), g, ln, "")
                    continue
                self._val(frame, rv[1][1] if rv[0] == "use" and rv[1][0] in ("c", "m") else None,
                          lambda: self.an.rvalue(frame, rv, bi), g, ln, mode, bi)
            else:
                c = payload[1]
                if c.get("n") == "from_residual":
                    if mode == "opt":
                        self.add(self.as_, "none", (), g, self.where(frame, ln))
                    continue
                fr = self.cond.callee_frames(frame, bi)
                if fr:
                    for x in fr:
                        self._ret(x, 0, g, seen, d + 1, mode)
                    continue
                self._val(frame, [local] if len(ds) == 1 else None, lambda: self.an.call(frame, bi), g, ln, mode, bi,
                          (bi, k, payload, ln))

    def _val(self, frame, pl, ev, g, ln, mode, bi=None, d=None):
        w = self.where(frame, ln)
        e = ev()
        if pl is not None:
            fl = self.cond.filters(frame, pl)
            if fl != TRUE:
                self.add("sel", self.txt(e), (fmt(fl),), TRUE, w)
        if mode == "opt":
            C = self.cond
            if d is not None:
                plus = C._vardef(frame, d, "core::option::Option", frozenset("+"), None, 0)
                minus = C._vardef(frame, d, "core::option::Option", frozenset("-"), None, 0)
            elif pl is not None:
                plus = C.variant(frame, pl, None, {"+"}, None, bi)
                minus = C.variant(frame, pl, None, {"-"}, None, bi)
            else:
                plus, minus = C.opt(e, True), C.opt(e, False)
            self.add(self.as_, "none", (), AND(g, minus), w)
            for (v,), h in self.expand(AND(g, plus), lambda: [ev()]):
                v = frozenset(x for x in v if x != ("none",))
                if v:
                    self.add(self.as_, self.txt(v), (), h, w)
            return
        if mode == "res":
            if self.rty.startswith("core::result::Result<()"):
                self.add(self.as_, "()", (), TRUE, w)
                return
            op = "Result<core::option::Option" in self.rty
            for (v,), h in self.expand(g, lambda: [ev()]):
                u = frozenset(x for x in v if x[0] not in ("wrap", "residual") and (op or x[0] != "none"))
                if u:
                    self.add(self.as_, self.txt(u), (), h, w)
            return
        alts = self.expand(g, lambda: [ev()])
        some = [(v, h) for (v,), h in alts if v != fs(("none",))]
        if len(some) < len(alts) and len(some) == 1:
            some = [(some[0][0], g)]     # an iterator over an Option
        else:
            some = [(v, h) for (v,), h in alts]
        for v, h in some:
            self.add(self.as_, self.txt(v), (), h, w)

    PASS = set("""branch map cloned copied as_ref as_mut clone flatten transpose inspect inspect_err into from and
deref to_owned collect collect_vec try_collect take unwrap_or_else_x sum product from_iter extend into_iter iter or
exactly_one at_most_one next find_map find peekable rev enumerate zip chain skip step_by filter filter_map map_ok
flat_map cloned multiunzip unzip process_results from_output flatten_ok filter_ok""".split())

    def _errs(self, frame, pl, seen, d):
        """origin of the errors carried by a Result (or iterator of Results) at a place"""
        if d > 24 or not pl:
            return
        key = (id(frame), repr(pl))
        if key in seen:
            return
        seen.add(key)
        fn = frame.fn
        l = pl[0]
        ds = fn.defs.get(l, [])
        if len(pl) > 1 and any(not isinstance(p, str) for p in pl[1:]):
            prj = [p for p in pl[1:] if not isinstance(p, str)]
            if all(p[0] in ("v", "f") and (p[0] == "v" or len(p) > 2 and p[2] in OPTRES) for p in prj):
                return self._errs(frame, [l], seen, d + 1)
            return self._errval(frame, lambda: self.an.place(frame, pl), 0)
        if not ds or (l <= fn.nargs and l != 0):
            if l <= fn.nargs and frame.parent is not None and frame.kind == "call" and frame.site is not None:
                ct = frame.parent.fn.blocks[frame.site][1]
                if ct[0] == "call" and l - 1 < len(ct[2]) and ct[2][l - 1][0] != "k" and len(ct[2]) == len(frame.args or ()):
                    return self._errs(frame.parent, ct[2][l - 1][1], seen, d + 1)
            return self._errval(frame, lambda: self.an.local(frame, l), 0)
        C = self.cond
        for (bi, k, payload, ln) in ds:
            if k == "rv":
                rv = payload
                if rv[0] == "use":
                    if rv[1][0] != "k":
                        self._errs(frame, rv[1][1], seen, d + 1)
                elif rv[0] == "ref":
                    self._errs(frame, rv[2], seen, d + 1)
                elif rv[0] == "cast" and rv[2][0] != "k":
                    self._errs(frame, rv[2][1], seen, d + 1)
                elif rv[0] == "agg" and rv[1] == "adt" and rv[3] in OPTRES:
                    if rv[4] in ("Err", "Break"):
                        self._errop(frame, rv[2][0], ln, seen, d, bi)
                continue
            c, args = payload[1], payload[2]
            n = c.get("n", "")
            std = is_std(c["p"]) or (("tr" in c) and is_std(c["tr"]))
            if "ctor" in c:
                if c.get("ctorv") == "Err":
                    self._errop(frame, args[0], ln, seen, d, bi)
                continue
            A = lambda i: args[i][1] if i < len(args) and args[i][0] != "k" else None
            if n == "from_residual":
                self._errs(frame, A(0), seen, d + 1)
                continue
            fr = C.callee_frames(frame, bi)
            if fr:
                for x in fr:
                    self._errs(x, [0], seen, d + 1)
                continue
            if std and n not in CALLS:
                if n in ("ok_or", "map_err", "ok_or_else"):
                    ev = lambda: frozenset(y for x in self.an.call(frame, bi) if x[0] == "wrap" for y in x[2])
                    f = TRUE
                    if A(0) is not None:
                        f = AND(C.full(frame, bi), C.variant(frame, A(0), None, {"-"}, None, bi))
                    if n == "map_err" and self._stripped(ev()) <= self._stripped(self.an.operand(frame, args[0])):
                        f = TRUE      # the same error as another type
                    if n == "ok_or":
                        self._errval(frame, lambda: self.an.operand(frame, args[1]), ln, f)
                    else:
                        self._errval(frame, ev, ln, f)
                    continue
                hit = False
                if len(args) > 1:
                    for i in range(1, len(args)):
                        for x in C.closure_frames(frame, bi, i):
                            hit = True
                            if x[0] == "f":
                                ty = x[1].fn.locals[0][0]
                                if "Result<" in ty:
                                    self._errs(x[1], [0], seen, d + 1)
                            elif n not in ("map", "filter", "inspect"):
                                self._errval(x[1] if isinstance(x[1], Frame) else frame, fs(("call", x[1], (x[2],))), ln)
                if n in self.PASS or hit or n in ("and_then", "or_else"):
                    if n in ("try_for_each", "try_fold", "for_each", "fold"):
                        continue
                    if A(0) is not None and "Result<" in frame.fn.locals[A(0)[0]][0] or \
                            A(0) is not None and ("iter" in frame.fn.locals[A(0)[0]][0] or "ControlFlow" in frame.fn.locals[A(0)[0]][0]):
                        self._errs(frame, A(0), seen, d + 1)
                    continue
            if "Result<" in fn.locals[l][0] or "ControlFlow<" in fn.locals[l][0] or "Option<" in fn.locals[l][0]:
                self._errval(frame, lambda: self.an.call(frame, bi), ln)

    def _errop(self, frame, op, ln, seen, d, bi):
        """an error value: built here, or taken out of another Result"""
        src = self._errsrc(frame, op, 0)
        if src:
            for pl in src:
                self._errs(frame, pl, seen, d + 1)
            return
        self._errval(frame, lambda: self.an.operand(frame, op), ln, self.cond.full(frame, bi))

    def _errsrc(self, frame, op, d):
        if op[0] == "k" or d > 8:
            return None
        pl, fn = op[1], frame.fn
        prj = [p for p in pl[1:] if not isinstance(p, str)]
        if prj:
            if len(prj) == 2 and prj[0][0] == "v" and prj[0][1] in ("Err", "Break") and prj[1][0] == "f":
                return [[pl[0]]]
            return None
        l = pl[0]
        if l <= fn.nargs or fn.parts.get(l):
            return None
        out = []
        for (bi, k, payload, _) in fn.defs.get(l, ()):
            if k == "rv":
                if payload[0] == "use":
                    r = self._errsrc(frame, payload[1], d + 1)
                elif payload[0] == "ref":
                    r = self._errsrc(frame, ["c", payload[2]], d + 1)
                else:
                    r = None
            else:
                c = payload[1]
                std = is_std(c["p"]) or (("tr" in c) and is_std(c["tr"]))
                r = self._errsrc(frame, payload[2][0], d + 1) if c.get("n") in ("from", "into", "clone") and std and payload[2] \
                    and "ctor" not in c else None
            if r is None:
                return None
            out += r
        return out or None

    def _errval(self, frame, ev, ln, f=TRUE):
        if not callable(ev):
            return self._errval1(frame, ev, ln, f)
        for (e,), g in self.expand(f, lambda: [ev()]):
            self._errval1(frame, e, ln, g if f != TRUE else f)

    def _stripped(self, es):
        out = set()
        for x in es:
            while True:
                if x[0] == "residual":
                    x = x[1]
                elif x[0] in ("wrap", "conv") and len(x[2]) == 1:
                    x = next(iter(x[2]))
                elif x[0] == "call" and x[1] in ("From::from", "Into::into", "Box::new", "Arc::new") and len(x[2]) == 1 \
                        and len(x[2][0]) == 1:
                    x = next(iter(x[2][0]))
                else:
                    break
            out.add(self.txt(fs(x)))
        return out

    def _errval1(self, frame, e, ln, f=TRUE):
        for x in e:
            while x[0] in ("residual",) or (x[0] == "wrap" and len(x[2]) == 1):
                x = x[1] if x[0] == "residual" else next(iter(x[2]))
            if x[0] == "conv" and len(x[2]) == 1:
                x = next(iter(x[2]))
            elif x[0] == "conv":
                for y in x[2]:
                    self._errval1(frame, fs(y), ln, f)
                continue
            if x[0] == "call" and x[1] in ("From::from", "Into::into", "Box::new", "Arc::new") and len(x[2]) == 1:
                self._errval1(frame, x[2][0], ln, f)
                continue
            if x[0] == "ctor" and x[1] in ("Option::Some", "Result::Ok", "Result::Err") and len(x[2]) == 1:
                self._errval1(frame, x[2][0][1], ln, f)
                continue
            if x[0] == "ctor" and (x[1].split("::")[0] in self._err_adts()):
                continue
            if x[0] in ("unit", "none", "std", "rec"):
                if x[0] != "std":
                    continue
            self.add("try", self.txt(fs(x)), (), f, self.where(frame, ln))

    # ---- effects
    def _err_adts(self):
        m = self.F.__dict__.get("_err_adts")
        if m is None:
            m = set()
            for i in self.F.impls:
                if i.get("tr", "").startswith("core::error::Error") and i.get("sa"):
                    m.add(short(i["sa"]))
            self.F.__dict__["_err_adts"] = m
        return m

    def _want(self, kind, name, c):
        if kind == "ctor":
            return name.split("::")[0] in self._err_adts()
        return True

    def _effects(self):
        for e in walk(self.an, self.root, self._want):
            fr = e.frame
            if fr.fn.rec.get("n") in ("fmt",):
                continue
            if e.kind == "ctor":
                self.events.append(("err " + e.name, None, True, fr, e.bb))
                f = AND(self.cond.full(fr, e.bb), self.cond.consumer(fr, e.bb) if e.via else self._eager(fr, e))
                ops = [o for o in e.ops if not self._errish(fr, o, e.via)]
                names = [n for n, o in zip(e.names or [], e.ops) if not self._errish(fr, o, e.via)]
                for vals, g in self.expand(f, lambda: [self.arg(fr, o) for o in ops]):
                    self.add("err", e.name, [f"{n}:{self.txt(v)}" for n, v in zip(names, vals)], g, e.where())
            elif self._effectful(e):
                self._event(e)
                f = self.cond.full(fr, e.bb)
                if not e.via and self._mapput(e, f):
                    continue
                if e.via:
                    f = AND(f, self.cond.consumer(fr, e.bb))
                for vals, g in self.expand(f, lambda: self.args(e)):
                    self.add("call", e.name, [self.txt(v) for v in vals], g, e.where())
            else:
                self._event(e)
        # field writes
        for fr in self._frames():
            fn = fr.fn
            loops = self.cond._loops(fn)
            for bi in sorted(fn.reach):
                self._pick(fr, bi, loops)
                for s in fn.blocks[bi][0]:
                    pl = s[0]
                    if s[1][0] == "agg" and s[1][1] == "array" and len(s[1][2]) > 1:
                        self.arrays.add(tuple(self.txt(self.an.operand(fr, o)) for o in s[1][2]))
                    if len(pl) > 1 and "*" in [p for p in pl[1:] if isinstance(p, str)] and any(
                            not isinstance(p, str) and p[0] == "f" for p in pl[1:]):
                        if s[1][0] == "setdiscr":
                            continue
                        base = self.an.project(fr, self.an.local(fr, pl[0]), pl[1:])
                        for (v,), g in self.expand(self.cond.full(fr, bi), lambda: [self.an.rvalue(fr, s[1], bi)]):
                            self.add("set", self.txt(base), [self.txt(v)], g, self.where(fr, s[2]))
                    elif len(pl) == 2 and pl[1] == "*":
                        base = self.an.local(fr, pl[0])
                        for (v,), g in self.expand(self.cond.full(fr, bi), lambda: [self.an.rvalue(fr, s[1], bi)]):
                            self.add("set", "*" + self.txt(base), [self.txt(v)], g, self.where(fr, s[2]))

    def _mapput(self, e, f):
        """changes of a map entry, whichever of the ways to write them was taken"""
        c, fr, an = e.callee, e.frame, self.an
        ml = maplike(c["p"]) if "tr" not in c else None
        if ml is None:
            return False
        n = c.get("n")
        ops = fr.fn.blocks[e.bb][1][2]
        A = lambda i: self.arg(fr, ops[i])
        if n in ("entry", "get_mut", "and_modify", "values_mut", "iter_mut"):
            return True
        if ml == "map":
            if n == "insert" and len(ops) == 3:
                slot, val = lambda: fs(("at", A(0), A(1))), lambda: A(2)
            elif n == "remove" and len(ops) == 2:
                for (v,), g in self.expand(f, lambda: [fs(("at", A(0), A(1)))]):
                    self.add("call", "Map::remove", [self.txt(v)], g, e.where())
                return True
            else:
                return False
        else:
            slot = lambda: A(0)
            if n in ("insert", "or_insert"):
                val = lambda: A(1)
            elif n == "or_default":
                val = lambda: fs(NEW)
            elif n == "or_insert_with":
                val = lambda: an.closure_value(fr, e.bb)
            elif n == "remove":
                for (v,), g in self.expand(f, lambda: [A(0)]):
                    self.add("call", "Map::remove", [self.txt(v)], g, e.where())
                return True
            else:
                return False
            if n != "insert":
                f = AND(f, self.cond.opt(slot(), False))
        for (k, v), g in self.expand(f, lambda: [slot(), val()]):
            self.add("set", "*" + self.txt(k), [self.txt(v)], g, e.where())
        return True

    def _pick(self, fr, bi, loops):
        """one element taken, duplicates dropped, an order imposed, a local collection cut down"""
        t = fr.fn.blocks[bi][1]
        if t[0] != "call" or not t[2] or t[2][0][0] == "k":
            return
        c = t[1]
        if not (is_std(c["p"]) or ("tr" in c) and is_std(c["tr"])):
            return
        g = PICKS.get(c.get("n"))
        if g is None:
            return
        if g == "first":
            inner = min((body for body, _, _ in loops.values() if bi in body), key=len, default=None)
            if inner is not None and not self._made_in(fr.fn, t[2][0][1][0], inner):
                return      # drives the loop
            if not self._payload_used(fr.fn, t[3]):
                return      # only asks whether there is one
        self.picks.add((g, self.txt(self.an.operand(fr, t[2][0]))))

    @staticmethod
    def _made_in(fn, l, body, d=0):
        """is the iterator behind local l made inside the loop?"""
        ds = fn.defs.get(l, ())
        if not ds or d > 6:
            return False
        for bi, k, p, _ in ds:
            if bi not in body:
                return False
            if k == "rv" and p[0] == "ref":
                if not Summary._made_in(fn, p[2][0], body, d + 1):
                    return False
            elif k == "rv" and p[0] == "use" and p[1][0] != "k":
                if not Summary._made_in(fn, p[1][1][0], body, d + 1):
                    return False
        return True

    @staticmethod
    def _payload_used(fn, dest):
        if len(dest) != 1:
            return True
        ls = {dest[0]}
        for bi in fn.reach:
            for s in fn.blocks[bi][0]:
                rv = s[1]
                if rv[0] == "ref" and rv[2] == [dest[0]] and len(s[0]) == 1:
                    ls.add(s[0][0])
        for bi in fn.reach:
            st, t = fn.blocks[bi]
            for s in st:
                rv = s[1]
                if rv[0] == "discr" or rv[0] == "ref" and rv[2] == [dest[0]]:
                    continue
                for pl in ([rv[2]] if rv[0] == "ref" else [o[1] for o in _flat_ops(rv) if o[0] != "k"]):
                    if pl[0] in ls:
                        return True
            if t[0] == "call" and t[1].get("n") not in ("is_some", "is_none"):
                if any(o[0] != "k" and o[1][0] in ls for o in t[2]):
                    return True
            elif t[0] == "ret" and 0 in ls:
                return True
        return False

    def _event(self, e):
        """a change of something reachable from a parameter, or a call that can fail"""
        fr, fn = e.frame, e.frame.fn
        t = fn.blocks[e.bb][1]
        if t[0] != "call" or len(self.events) > 80:
            return
        c = t[1]
        std = is_std(c["p"]) or (("tr" in c) and is_std(c["tr"]))
        if std and (c.get("n") not in SEQ or t[1] is not e.callee):
            return
        rec = set()
        for a in t[2]:
            if a[0] in ("c", "m") and len(a[1]) == 1 and fn.locals[a[1][0]][0].startswith("&mut ") and self._mut_root(fr, a):
                rec.add(self.txt(self.an.operand(fr, a)))
        dest = t[3]
        rty = fn.locals[dest[0]][0] if len(dest) == 1 else "?"
        fails = not std and rty.startswith("core::result::Result<")
        if rec or fails:
            txt = e.name + "(" + ", ".join(self.txt(v) for v in self.args(e)) + ")"
            self.events.append((txt, frozenset(rec) or None, fails, fr, e.bb))

    def order(self):
        """pairs of events that can only happen in this order"""
        out, bad = {}, set()
        ev = self.events
        for i, a in enumerate(ev):
            for b in ev[i + 1:]:
                for x, y in ((a, b), (b, a)):
                    if x[0] == y[0]:
                        continue
                    # x changes something; y changes the same thing, or fails
                    if x[1] is None and y[1] is None:
                        continue
                    if x[1] is not None and y[1] is not None:
                        if not any(p == q or p.startswith(q + ".") or q.startswith(p + ".") for p in x[1] for q in y[1]):
                            if not (x[2] or y[2]):
                                continue
                    elif not (x[2] if x[1] is None else y[2]):
                        continue
                    rel = self._before(x, y)
                    if rel is None:
                        continue
                    k = (x[0], y[0])
                    if rel:
                        out[k] = 1
                    else:
                        bad.add(k)
        return {k for k in out if k not in bad and (k[1], k[0]) not in out}

    @staticmethod
    def _before(x, y):
        fx, fy = list(x[3].chain()), list(y[3].chain())
        ids = {id(f): f for f in fx}
        com = next((f for f in fy if id(f) in ids), None)
        if com is None:
            return None

        def at(ch, bb):
            b, prev = bb, None
            for f in ch:
                if f is com:
                    if prev is None:
                        return b
                    if prev.consumer is not None and prev.consumer[0] is com:
                        return prev.consumer[1]
                    return prev.site
                prev = f
            return None
        bx, by = at(fx, x[4]), at(fy, y[4])
        if bx is None or by is None or bx == by:
            return None
        fn = com.fn
        if by in fn.reach_from(bx) and bx not in fn.reach_from(by):
            return True
        return False

    def _frames(self):
        out, seen = [], set()
        walk(self.an, self.root, lambda *a: False, frames=out)
        for f in out:
            if id(f) not in seen:
                seen.add(id(f))
                yield f

    def _eager(self, frame, e, l=None, d=0):
        """condition under which an eagerly built error is used: opt.ok_or(Error)"""
        fn = frame.fn
        if l is None:
            if e.dest is None or len(e.dest) != 1:
                return TRUE
            l = e.dest[0]
        for (bi, ai) in fn.call_uses.get(l, ()):
            c, args = fn.blocks[bi][1][1], fn.blocks[bi][1][2]
            if ai == 1 and c.get("n") == "ok_or" and args[0][0] != "k":
                return self.cond.variant(frame, args[0][1], None, {"-"}, None, bi)
            if d < 6 and (ai == 0 and c.get("n") in ("into", "from", "new") or "ctor" in c):
                dest = fn.blocks[bi][1][3]
                if len(dest) == 1:
                    return self._eager(frame, e, dest[0], d + 1)
        if d < 6:
            for b in fn.reach:
                for st in fn.blocks[b][0]:
                    rv = st[1]
                    if len(st[0]) == 1 and (rv[0] == "use" and rv[1][0] != "k" and rv[1][1] == [l]
                                            or rv[0] == "agg" and rv[1] == "adt" and any(o[0] != "k" and o[1] == [l] for o in rv[2])):
                        r = self._eager(frame, e, st[0][0], d + 1)
                        if r != TRUE:
                            return r
        return TRUE

    def _effectful(self, e):
        c = e.callee
        n = c.get("n", "")
        fr = e.frame
        std = is_std(c["p"]) or (("tr" in c) and is_std(c["tr"]))
        t = fr.fn.blocks[e.bb][1]
        if t[0] != "call":
            return False
        tid = self.an.target(c)
        if c["p"].startswith(("serde_json::", "<serde_json::")) or n in ("as_any_mut",):
            std = True
        # calls looked into are represented by their body
        if t[1] is c and self.an.should_inline(c, fr):
            return False
        if t[1] is c and n in CALLS and std:
            return not self.cond.callee_frames(fr, e.bb)
        if c["p"].startswith(("<inkwell::builder::Builder", "inkwell::builder::Builder")):
            return True      # emits an instruction
        if std:
            if not t[2] or t[2][0][0] == "k":
                return False
            ty = fr.fn.locals[t[2][0][1][0]][0]
            if n in CELLMUT and ("Cell<" in ty or "::Atomic" in ty or "Lock<" in ty):
                return True
            if n not in STDMUT:
                return False
            if not ty.startswith("&mut") and not ENTRY.search(ty):
                return False
            # only collections that outlive the function: rooted in a parameter
            return self._mut_root(fr, t[2][0])
        # recursion
        if tid and any(f.fn.id == tid for f in fr.chain()):
            return True
        dest = t[3]
        rty = fr.fn.locals[dest[0]][0] if len(dest) == 1 else "?"
        if rty == "()" or rty.startswith("core::result::Result<()"):
            return True
        if c.get("n") == "fmt":
            return False
        for a in t[2]:
            if a[0] in ("c", "m") and len(a[1]) == 1:
                ty = fr.fn.locals[a[1][0]][0]
                if ty.startswith("&mut ") and not any(x in ty for x in ("Formatter", "dyn core::iter")):
                    return True
        return False

    def _mut_root(self, frame, op, d=0):
        """does this &mut operand point into something that outlives the function?"""
        if op[0] == "k" or d > 14:
            return False
        fn = frame.fn
        l, proj = op[1][0], op[1][1:]
        if 1 <= l <= fn.nargs:
            if frame.kind == "closure":
                if l == 1:
                    # captured variable: look at what was captured
                    for p in proj:
                        if not isinstance(p, str) and p[0] == "f" and frame.caps and frame.caps[1] is not None:
                            upv = fn.rec.get("upv", [])
                            if p[1] in upv and upv.index(p[1]) < len(frame.caps[1]):
                                return self._mut_root(frame.caps[0], frame.caps[1][upv.index(p[1])], d + 1)
                    return True
                return False
            if frame.args is None:
                return fn.locals[l][0].startswith("&")
            if frame.site is not None and frame.parent is not None:
                ct = frame.parent.fn.blocks[frame.site][1]
                if ct[0] == "call" and l - 1 < len(ct[2]):
                    return self._mut_root(frame.parent, ct[2][l - 1], d + 1)
            return True
        for (bi, k, payload, _) in fn.defs.get(l, ()):
            if k == "rv":
                if payload[0] == "ref":
                    if self._mut_root(frame, ["c", payload[2]], d + 1):
                        return True
                elif payload[0] == "use" and payload[1][0] != "k":
                    if self._mut_root(frame, payload[1], d + 1):
                        return True
                elif payload[0] == "cast" and payload[2][0] != "k":
                    if self._mut_root(frame, payload[2], d + 1):
                        return True
                elif payload[0] == "agg" and payload[1] == "tuple":
                    pick = [p for p in proj if not isinstance(p, str) and p[0] == "f"]
                    ops = payload[2]
                    if pick and str(pick[0][1]).isdigit() and int(pick[0][1]) < len(ops):
                        ops = [ops[int(pick[0][1])]]
                    if any(self._mut_root(frame, o, d + 1) for o in ops):
                        return True
            else:
                if fn.locals[l][0].startswith(("&mut", "core::option::Option<&mut")) or "Entry" in fn.locals[l][0]:
                    if payload[2] and self._mut_root(frame, payload[2][0], d + 1):
                        return True
        return False

    def out(self):
        """kind, text, formula text, where"""
        for (k, n, a), f in sorted(self.lines.items(), key=lambda x: (x[0][0], x[0][1], x[0][2])):
            yield k, n, a, f, self.site[(k, n, a)]

    def show(self):
        L = []
        for k, n, a, f, w in self.out():
            L.append(f"{k} {n}({', '.join(a)}) IF {fmt(f)}   @{w}")
        return L

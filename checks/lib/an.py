"""Dataflow over the extracted MIR.

 * value origins: where a value comes from, as a set of expressions over the
   parameters of a root function, looking through moves, borrows, clones,
   `?`, Option/Result wrapping, iterator plumbing, closures and private helpers;
 * necessary conditions: the branch outcomes without which a program point is
   not reached, again through helpers, closures and boolean temporaries;
 * effects: every construction / call reachable from a root, each with its
   operands' origins and its necessary conditions.

Nothing is executed: all results are read off the control-flow graph and the
definitions of locals.
"""
import functools
import re

# ---------------------------------------------------------------- names
_MODEL = ("hugr_model::",)


def strip_generics(p):
    out, depth = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            depth += 1
        elif c == ">":
            if i and p[i - 1] == "-":
                if depth == 0:
                    out.append(c)
            else:
                depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


@functools.lru_cache(None)
def short(p):
    """Short name of an ADT / trait path."""
    q = strip_generics(p).strip("&").replace("mut ", "").strip()
    q = q.rstrip(":")
    parts = [x for x in q.split("::") if x]
    if not parts:
        return p
    if p.startswith("hugr_model::") and len(parts) >= 2 and parts[-2] in ("table", "ast"):
        return parts[-2] + "::" + parts[-1]
    if "capnp" in p and len(parts) >= 2:
        return "capnp::" + "::".join(parts[-2:])
    return parts[-1]


STD = ("core::", "alloc::", "std::")


PRIM = re.compile(r"(\[|(bool|str|char|[ui](8|16|32|64|128|size)|f32|f64)>::)")


@functools.lru_cache(None)
def is_std(p):
    q = p.lstrip("<&")
    return q.startswith(STD) or PRIM.match(q) is not None or q.startswith(("itertools::", "either::", "indexmap::", "smallvec::",
                                               "hashbrown::", "bumpalo::", "fxhash", "rustc_hash"))


MAPTY = re.compile(r"^<?&?(?:mut )?(?:[a-z_0-9]+::)*(HashMap|BTreeMap|IndexMap|Map)<")
ENTTY = re.compile(r"^<?&?(?:mut )?(?:[a-z_0-9]+::)*(Entry|VacantEntry|OccupiedEntry)<")


@functools.lru_cache(None)
def maplike(p):
    """"map", "entry" or None for the type whose method a path names"""
    if not is_std(p):
        return None
    return "map" if MAPTY.match(p) else "entry" if ENTTY.match(p) else None


def callee_name(c):
    """Canonical short name of a callee: Trait::m, Type::m or fn."""
    if "ctor" in c:
        return short(c["ctor"]) + ("::" + c["ctorv"] if "ctorv" in c else "")
    p = c["p"]
    if "tr" in c:
        return short(c["tr"]) + "::" + c["n"]
    m = re.match(r"^<(.*)>::([A-Za-z_0-9]+)$", p)
    if m:
        inner = m.group(1)
        # `<T as Trait>::m` (a resolved impl item used directly)
        d = 0
        for k in range(len(inner)):
            ch = inner[k]
            if ch == "<":
                d += 1
            elif ch == ">" and inner[k - 1] != "-":
                d -= 1
            elif d == 0 and inner.startswith(" as ", k):
                return short(inner[k + 4:]) + "::" + m.group(2)
        return short(inner) + "::" + m.group(2)
    return c.get("n", p.split("::")[-1])


def fn_short(i):
    """Short readable name for a function id."""
    m = re.match(r"^<(.*)>::([^<>]+)$", i)
    if m:
        return callee_name({"p": i})
    return strip_generics(i).split("::", 1)[-1] if "::" in i else i


# ---------------------------------------------------------------- function
class Fn:
    def __init__(self, F, rec, mir=None, prom=None):
        self.F = F
        self.rec = rec
        self.id = rec["id"] if prom is None else f"{rec['id']}::promoted[{prom}]"
        self.mir = mir or rec["mir"]
        self.blocks = self.mir["blocks"]
        self.nargs = self.mir["nargs"]
        self.locals = self.mir["locals"]
        self.n = len(self.blocks)
        self._defs = None
        self._loopof = None
        self._fwdm = {}
        self._excl = {}
        self.P = None

    # --- CFG
    @functools.cached_property
    def succ(self):
        s = []
        for b in self.blocks:
            if b is None:
                s.append(())
                continue
            t = b[1]
            k = t[0]
            if k == "goto":
                s.append((t[1],))
            elif k == "switch":
                x = []
                for _, y in t[2]:
                    if y not in x:
                        x.append(y)
                if t[3] not in x:
                    x.append(t[3])
                s.append(tuple(x))
            elif k == "drop":
                s.append((t[2],))
            elif k == "call":
                s.append((t[4],) if t[4] is not None else ())
            elif k == "assert":
                s.append((t[3],))
            else:
                s.append(())
        # an `otherwise` edge to an unreachable block is no edge
        dead = {i for i, b in enumerate(self.blocks) if b is not None and b[1][0] == "unreachable" and not b[0]}
        s = [tuple(y for y in x if y not in dead) for x in s]
        return s

    @functools.cached_property
    def reach(self):
        seen = {0}
        st = [0]
        while st:
            b = st.pop()
            for y in self.succ[b]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    @functools.cached_property
    def pred(self):
        p = [[] for _ in range(self.n)]
        for b in self.reach:
            for y in self.succ[b]:
                p[y].append(b)
        return p

    @functools.cached_property
    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(self.succ[y])))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    @functools.cached_property
    def idom(self):
        order = {b: i for i, b in enumerate(self.rpo)}
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while order[x] > order[y]:
                                    x = idom[x]
                                while order[y] > order[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        return idom

    def dominators(self, b):
        out = []
        if b not in self.idom:
            return out
        while True:
            out.append(b)
            if b == 0:
                return out
            b = self.idom[b]

    def dominates(self, a, b):
        return a in self.dominators(b)

    def reach_from(self, b, avoid=()):
        """blocks reachable from b (inclusive) without entering `avoid`"""
        if b in avoid:
            return set()
        if not avoid:
            m = self.__dict__.setdefault("_rf", {})
            if b in m:
                return m[b]
        seen = {b}
        st = [b]
        while st:
            x = st.pop()
            for y in self.succ[x]:
                if y not in seen and y not in avoid:
                    seen.add(y)
                    st.append(y)
        if not avoid:
            m[b] = seen
        return seen

    @functools.cached_property
    def rets(self):
        return [b for b in self.reach if self.blocks[b][1][0] == "ret"]

    # --- definitions
    @property
    def defs(self):
        """local -> list of (bb, kind, payload); whole definitions.
           self.parts: local -> list of (bb, projection, kind, payload)"""
        if self._defs is None:
            d, p = {}, {}
            for bi in sorted(self.reach):
                st, t = self.blocks[bi]
                for s in st:
                    pl = s[0]
                    if s[1][0] == "setdiscr":
                        continue
                    if len(pl) == 1:
                        d.setdefault(pl[0], []).append((bi, "rv", s[1], s[2]))
                    else:
                        p.setdefault(pl[0], []).append((bi, pl[1:], "rv", s[1]))
                if t[0] == "call":
                    pl = t[3]
                    if len(pl) == 1:
                        d.setdefault(pl[0], []).append((bi, "call", t, t[5]))
                    else:
                        p.setdefault(pl[0], []).append((bi, pl[1:], "call", t))
            self._defs = d
            self._parts = p
        return self._defs

    def loop_of(self):
        """block -> set of loop heads it belongs to; also the back edges"""
        if self._loopof is None:
            back = set()
            for b in self.reach:
                for y in self.succ[b]:
                    if self.dominates(y, b):
                        back.add((b, y))
            heads = {}
            for (b, h) in back:
                body, st = {h, b}, [b]
                while st:
                    x = st.pop()
                    if x == h:
                        continue
                    for z in self.pred.get(x, ()) if isinstance(self.pred, dict) else self.pred[x]:
                        if z not in body:
                            body.add(z)
                            st.append(z)
                heads.setdefault(h, set()).update(body)
            lo = {b: frozenset(h for h, bd in heads.items() if b in bd) for b in self.reach}
            self._loopof = (lo, back)
        return self._loopof

    def _fwd(self, b):
        """blocks reachable from b without taking a back edge"""
        m = self._fwdm.get(b)
        if m is None:
            back = self.loop_of()[1]
            m, st = set(), [b]
            while st:
                x = st.pop()
                for y in self.succ[x]:
                    if (x, y) not in back and y not in m:
                        m.add(y)
                        st.append(y)
            self._fwdm[b] = m
        return m

    def exclusive(self, l):
        """for a local with several definitions of which each use sees exactly one in each iteration:
        per definition (definitions that may overwrite it later, definitions it may overwrite); else None"""
        if l in self._excl:
            return self._excl[l]
        ds = self.defs.get(l, ())
        r = None
        if 1 < len(ds) <= 40 and not self.parts.get(l) and not self.mutrefs.get(l):
            lo = self.loop_of()[0]
            if len({lo[d[0]] for d in ds}) == 1:
                r = []
                for i, d in enumerate(ds):
                    after = [j for j, e in enumerate(ds) if j != i and (e[0] in self._fwd(d[0]) or (e[0] == d[0] and j > i))]
                    before = [j for j, e in enumerate(ds) if j != i and (d[0] in self._fwd(e[0]) or (e[0] == d[0] and j < i))]
                    # only the nearest one
                    before = [j for j in before if not any(k != j and ds[k][0] in self._fwd(ds[j][0]) and
                                                           self.dominates(ds[k][0], d[0]) for k in before)]
                    r.append((after, before))
                if lo[ds[0][0]]:
                    # in a loop: an initialisation before the loop would be missing here, but a use of the
                    # previous iteration's value shows as a use that no definition dominates
                    pass
        self._excl[l] = r
        return r

    def optmap(self, l):
        """is the local Some(..) or None as another Option is?"""
        ds = self.defs.get(l, ())
        if self.locals[l][0].startswith("core::result::Result<"):
            # a value, or one of several errors
            return sum(1 for _, k, p, _ in ds if not (
                k == "rv" and p[0] == "agg" and p[1] == "adt" and p[4] == "Err"
                or k != "rv" and (p[1].get("ctorv") == "Err" or p[1].get("n") == "from_residual"))) == 1
        if len(ds) != 2 or not self.locals[l][0].startswith("core::option::Option<"):
            return False
        for bi, k, p, _ in ds:
            if k == "rv" and p[0] == "agg" and p[1] == "adt" and p[4] == "None":
                pr = self.pred[bi]
                while len(pr) == 1 and self.blocks[next(iter(pr))][1][0] == "goto":
                    pr = self.pred[next(iter(pr))]
                if len(pr) != 1:
                    return False
                t = self.blocks[next(iter(pr))][1]
                if t[0] == "switch" and t[1][0] != "k":
                    return any(x[1] == "rv" and x[2][0] == "discr" and x[2][2] in OPTRES for x in self.defs.get(t[1][1][0], ()))
        return False

    def slot_puts(self, bb):
        """values put through the reference or map entry the call in bb makes: [(block, operand)];
        the operand is None when a closure makes the value"""
        m = self.__dict__.setdefault("_puts", {})
        if bb in m:
            return m[bb]
        m[bb] = out = []
        todo, seen = [self.blocks[bb][1][3][0]], set()
        while todo:
            l = todo.pop()
            if l in seen or l == 0 or len(seen) > 40:
                continue
            seen.add(l)
            for b2 in sorted(self.reach):
                st, t = self.blocks[b2]
                for s in st:
                    rv = s[1]
                    src = rv[1][1] if rv[0] == "use" and rv[1][0] != "k" else rv[2] if rv[0] == "ref" else None
                    if s[0][0] == l and "*" in s[0][1:] and rv[0] == "use":
                        out.append((b2, rv[1]))
                    elif src and src[0] == l and len(s[0]) == 1 and rv[0] in ("use", "ref") and not any(
                            not isinstance(p, str) and p[0] == "f" and not (len(p) > 2 and is_std(p[2] or "")) for p in src[1:]):
                        todo.append(s[0][0])
                if t[0] == "call" and t[2] and t[2][0][0] != "k" and t[2][0][1][0] == l:
                    c = t[1]
                    if not is_std(c["p"]):
                        continue
                    n = c.get("n")
                    if n in ("or_insert", "push", "push_back", "push_front", "extend", "append") or n == "insert":
                        out += [(b2, o) for o in t[2][1:]]
                    elif n in ("or_insert_with", "or_insert_with_key"):
                        out.append((b2, None))
                    if n in ("or_insert", "or_insert_with", "or_default", "and_modify", "get_mut", "into_mut", "unwrap", "expect",
                             "insert", "as_mut", "or_insert_with_key"):
                        todo.append(t[3][0])
        return out

    @functools.cached_property
    def _clos(self):
        """[(closure id, local it is put in, operands)]"""
        return [(s[1][3], s[0][0], s[1][2]) for bi in sorted(self.reach) for s in self.blocks[bi][0]
                if s[1][0] == "agg" and s[1][1] == "closure" and len(s[0]) == 1]

    def upvar_of(self, pl, d=0):
        """the captured variable a place of a closure is (a reborrow of)"""
        fl = [p for p in pl[1:] if not isinstance(p, str)]
        if pl[0] == 1:
            return fl[0][1] if len(fl) == 1 and fl[0][0] == "f" else None
        if fl or d > 8 or pl[0] <= self.nargs:
            return None
        ds = self.defs.get(pl[0], ())
        if len(ds) != 1 or ds[0][1] != "rv":
            return None
        rv = ds[0][2]
        src = rv[2] if rv[0] == "ref" else rv[1][1] if rv[0] == "use" and rv[1][0] != "k" else None
        return self.upvar_of(src, d + 1) if src else None

    def cappush(self, l):
        """collection-building calls on local l made by closures that borrow it"""
        m = self.__dict__.setdefault("_cappush", {})
        if l in m:
            return m[l]
        m[l] = out = []
        ts = {t for t, proj in self.mutrefs.get(l, ()) if not any(not isinstance(p, str) for p in proj)}
        if not ts:
            return out
        for cid, dest, ops in self._clos:
            for k, o in enumerate(ops):
                if o[0] == "k" or len(o[1]) != 1 or o[1][0] not in ts:
                    continue
                cf = self.P.fn(cid) if self.P is not None else None
                if cf is None:
                    continue
                upv = cf.rec.get("upv", [])
                if k >= len(upv):
                    continue
                for bi in sorted(cf.reach):
                    t = cf.blocks[bi][1]
                    if t[0] == "call" and t[1].get("n") in COLLECT_MUT and is_std(t[1]["p"]) and t[2] and t[2][0][0] != "k" \
                            and cf.upvar_of(t[2][0][1]) == upv[k]:
                        out.append((cid, dest, bi, t[2][1:]))
        return out

    @property
    def parts(self):
        self.defs
        return self._parts

    @functools.cached_property
    def mutrefs(self):
        """local -> [(temp, proj)] : temp = &mut local.proj (transitively through reborrows)"""
        base = {}
        for bi in sorted(self.reach):
            for s in self.blocks[bi][0]:
                if len(s[0]) == 1 and s[1][0] == "ref" and s[1][1] in ("mut", "raw"):
                    base.setdefault(s[0][0], []).append(s[1][2])
                elif len(s[0]) == 1 and s[1][0] == "use" and s[1][1][0] in ("m", "c") and len(s[1][1][1]) == 1:
                    src = s[1][1][1][0]
                    if self.locals[src][0].startswith("&mut"):
                        base.setdefault(s[0][0], []).append([src, "*"])
        out = {}

        def root(t, depth=0):
            res = []
            for pl in base.get(t, []):
                l, proj = pl[0], pl[1:]
                if proj and proj[0] == "*" and depth < 6:
                    rr = root(l, depth + 1)
                    if rr:
                        for (b, pj) in rr:
                            res.append((b, list(pj) + list(proj[1:])))
                        continue
                res.append((l, proj))
            return res
        for t in base:
            for (l, proj) in root(t):
                out.setdefault(l, []).append((t, proj))
        return out

    @functools.cached_property
    def call_uses(self):
        """local -> [(bb, argindex)] for operands that are exactly this local"""
        u = {}
        for bi in sorted(self.reach):
            t = self.blocks[bi][1]
            if t[0] == "call":
                for k, a in enumerate(t[2]):
                    if a[0] in ("c", "m") and len(a[1]) == 1:
                        u.setdefault(a[1][0], []).append((bi, k))
        return u

    def line(self, bb):
        b = self.blocks[bb]
        t = b[1]
        if t[0] == "call":
            return t[5]
        if t[0] == "switch":
            return t[4]
        for s in b[0]:
            if s[2]:
                return s[2]
        return 0

    # --- error exits
    @functools.cached_property
    def err_only(self):
        """blocks from which every path ends in an error return or diverges.

        A return is an *error return* when the value in the return place at
        that point is certainly an Err / residual."""
        # forward: state of _0 at block exit: set of {"ok","err"}
        okdef = {}
        for bi in self.reach:
            st, t = self.blocks[bi]
            v = None
            for s in st:
                if s[0] == [0]:
                    v = self._ret_kind(s[1])
            if t[0] == "call" and t[3] == [0]:
                v = "err" if t[1].get("n") == "from_residual" else self._call_ret_kind(t)
            if v:
                okdef[bi] = v
        # blocks that can reach return with a non-err value
        # walk backwards over (block, pending) where pending = value not yet known
        good = set()
        # state at return: find backwards the last definition
        # reaching-definition analysis of _0
        IN = {b: set() for b in self.reach}
        IN[0] = {"undef"}
        work = list(self.rpo)
        while work:
            b = work.pop(0)
            out = {okdef[b]} if b in okdef else IN[b]
            for y in self.succ[b]:
                if not out <= IN[y]:
                    IN[y] |= out
                    if y not in work:
                        work.append(y)
        # A path from block b is error-only iff no path b -> ... -> ret delivers a non-err value.
        # state-space: (block, value)
        okstates = set()
        rev = {}
        starts = []
        for b in self.reach:
            for v in (IN[b] or {"undef"}):
                w = okdef.get(b, v)
                if self.blocks[b][1][0] == "ret":
                    if w != "err":
                        starts.append((b, v))
                for y in self.succ[b]:
                    rev.setdefault((y, w), []).append((b, v))
        st = list(starts)
        okstates = set(starts)
        while st:
            x = st.pop()
            for y in rev.get(x, []):
                if y not in okstates:
                    okstates.add(y)
                    st.append(y)
        okblocks = {b for b, _ in okstates}
        self._ok_states = okstates
        return self.reach - okblocks

    def _ret_kind(self, rv):
        if rv[0] == "agg" and rv[1] == "adt" and rv[3] == "core::result::Result":
            return "err" if rv[4] == "Err" else "ok"
        if rv[0] == "use" and rv[1][0] in ("c", "m") and len(rv[1][1]) == 1:
            # a local holding an Err
            l = rv[1][1][0]
            ks = set()
            for d in self.defs.get(l, []):
                if d[1] == "rv":
                    ks.add(self._ret_kind(d[2]) if not (d[2][0] == "use" and d[2][1][0] != "k" and d[2][1][1] == [0]) else "ok")
                elif d[2][1].get("n") == "from_residual":
                    ks.add("err")
                else:
                    ks.add(self._call_ret_kind(d[2]))
            if ks == {"err"}:
                return "err"
        return "ok"

    def _call_ret_kind(self, t):
        """Err(..)? conversions that certainly give an Err"""
        return "ok"


class Prog:
    def __init__(self, F):
        self.F = F
        self._fns = {}

    def fn(self, i):
        f = self._fns.get(i)
        if f is None:
            if "::promoted[" in i:
                base, k = i[:-1].rsplit("::promoted[", 1)
                rec = self.F.get(base)
                f = Fn(self.F, rec, rec["prom"][int(k)], int(k))
            else:
                rec = self.F.get(i)
                if rec is None:
                    return None
                f = Fn(self.F, rec)
            f.P = self
            self._fns[i] = f
        return f


# ---------------------------------------------------------------- std semantics
TRANSPARENT = set("""clone deref deref_mut as_ref as_mut borrow borrow_mut into_iter iter iter_mut to_owned to_vec
as_slice as_mut_slice as_str collect collect_vec cloned copied unwrap expect ok_or ok
branch from_output as_deref as_deref_mut by_ref peekable into_boxed_slice into_vec unwrap_unchecked fuse into_inner
get_ref get_mut into_boxed_str next next_back peek last first nth pop pop_front pop_back rev enumerate_x
drain values keys into_values into_keys values_mut sorted unique dedup exactly_one at_most_one
lock read write upgrade downgrade into_bump_slice as_bytes make_mut unwrap_or_clone take replace_with swap_remove
must_use try_into_inner as_any transpose flatten flatten_ok try_collect new_unchecked upcast to_ref into_owned from_iter
split_at split_first split_last chunks windows skip take step_by first_mut last_mut multiunzip unzip
map_into cloned leak pin try_from_iter min max min_by_key max_by_key find_or_first get_or_insert_with entry key value
sorted_by_key sorted_unstable into_sorted_vec dedup_by_key unwrap_or_default to_string_lossy""".split())
ENDS = {"last": "last", "last_mut": "last", "next_back": "last", "pop_back": "last", "split_last": "last", "max_by_key": "max",
        "min_by_key": "min", "max_by": "max", "min_by": "min", "pop": "last"}
# methods that keep only the receiver, whatever the closure says
KEEP_FILTER = set("filter find take_while skip_while take_while_ref inspect sorted_by_key sorted_by retain position rposition "
                  "find_position max_by_key min_by_key map_while_x unique_by partition sort_by_key sort_by sort_unstable_by_key".split())
APPLY = set("map and_then flat_map filter_map find_map map_while then map_or map_or_else fold try_fold scan "
            "unwrap_or_else or_else ok_or_else get_or_insert_with or_insert_with for_each try_for_each map_err map_ok and_then_ok "
            "fold_while update fold_ok is_x try_map partition_map fold_first reduce flat_map_ok filter_map_ok inspect_err "
            "unwrap_or_else_x zip_with sum_by and_modify".split())
PRED = {"any": ("any",), "all": ("all",), "is_some_and": ("any",), "is_none_or": ("all",), "is_ok_and": ("any",),
        "is_err_and": ("any",)}
COLLECT_MUT = set("push insert extend append push_back push_front entry extend_from_slice insert_full resize fill push_str "
                  "set get_or_insert_with write_str replace".split())
CMP = {"eq": "eq", "ne": "ne", "lt": "lt", "le": "le", "gt": "gt", "ge": "ge"}
BINCMP = {"Eq": "eq", "Ne": "ne", "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}
NEG = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "le": "gt", "gt": "le"}
OPTRES = ("core::option::Option", "core::result::Result", "core::ops::ControlFlow", "core::ops::control_flow::ControlFlow")
MAXSET = 24
UNK = ("unk",)
# closures handed to these are not otherwise part of the value
YIELDS = set("""from_fn retain retain_mut sort_by sort_by_key sort_by_cached_key sort_unstable_by sort_unstable_by_key dedup_by
dedup_by_key successors max_by max_by_key min_by min_by_key sorted_by sorted_by_key sorted_unstable_by sorted_unstable_by_key
binary_search_by binary_search_by_key partition_point chunk_by chunk_by_mut unique_by dedup_by_with_count repeat_with rposition
take_while skip_while map_while take_while_ref peeking_take_while map_windows split_inclusive coalesce group_by and_modify
drain_filter extract_if is_sorted_by is_sorted_by_key update from_fn_array spawn catch_unwind""".split())
REC = ("rec",)
NEW = ("std", "new", ())
EMPTIES = (NEW, ("empty",), ("std", "default", ()))


def fs(*a):
    return frozenset(a)


def norm_str(s):
    """texts made from the source itself: line numbers, quoted conditions"""
    if s.startswith("Condition failed: "):
        return "Condition failed"
    return re.sub(r"(\.rs):\d+(:\d+)?", r"\1", s)


def tup(vs):
    """a tuple; put together again from all the parts of one value, it is that value"""
    if len(vs) > 1 and all(len(v) == 1 for v in vs):
        es = [next(iter(v)) for v in vs]
        if all(e[0] == "fld" and e[2] == str(i) for i, e in enumerate(es)) and len({e[1] for e in es}) == 1:
            return fs(es[0][1])
    return fs(("tuple", vs))


def thunk(p):
    return p if callable(p) else (lambda: p)


class Frame:
    __slots__ = ("fn", "args", "parent", "site", "depth", "caps", "memo", "nec", "kind", "consumer", "_full")

    def __init__(self, fn, args, parent=None, site=None, caps=None, kind="call", consumer=None):
        self.fn = fn
        self.args = args          # list of callables -> exprset, or None (root)
        self.parent = parent
        self.site = site          # bb in parent
        self.depth = 0 if parent is None else parent.depth + 1
        self.caps = caps          # (frame, ops) of a closure
        self.memo = {}
        self.nec = {}
        self.kind = kind
        self.consumer = consumer  # (frame, bb) of the call that runs a closure
        self._full = {}

    def chain(self):
        f = self
        while f is not None:
            yield f
            f = f.parent


@functools.lru_cache(None)
def load_vocab():
    import os
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "vocab.txt")
    try:
        with open(p) as f:
            return frozenset(x.rstrip("\n") for x in f)
    except OSError:
        return frozenset()


class An:
    """Analysis with a given inlining policy."""

    def __init__(self, F, inline=None, opaque=(), depth=7, policy=None, vocab=None):
        self.ranc = set()    # closures somebody in sight runs
        self.loose = []      # closures that run somewhere out of sight
        self.F = F
        self.policy = policy
        self.P = Prog(F)
        self.opaque = set(opaque)
        self.extra = inline
        self.vocab = vocab if vocab is not None else load_vocab()
        self.maxdepth = depth
        self.stats = {"functions": set(), "calls": 0}
        self.active = {}
        self.recomp = {}
        self.hit = 1 << 30
        self.used = {}         # choice points met by the evaluation in progress
        self.uses = {}         # (frame, memo key) -> choice points met when it was computed
        self.pins = {}         # choice point -> index of the alternative to take
        self.pinmemo = {}
        self.cps = {}          # choice point -> list of conditions, one for each alternative

    # ---- inlining policy
    def target(self, c):
        """fact id of the body a callee resolves to (or None)"""
        for k in ("r", "p"):
            if k in c and c[k] in self.F:
                if k == "p" and "tr" in c and "r" not in c and not c.get("dflt"):
                    return None
                return c[k]
        return None

    def should_inline(self, c, frame):
        t = self.target(c)
        if t is None or t.endswith("}"):
            return None
        nm = callee_name(c)
        if nm in self.opaque or t in self.opaque:
            return None
        if frame.depth >= self.maxdepth:
            return None
        for f in frame.chain():
            if f.fn.id == t:
                return None
        rec = self.F.get(t)
        if self.extra is not None and self.extra(t, rec, nm):
            return t
        if self.opaque_fn(t, rec):
            return None
        return t

    def opaque_fn(self, t, rec):
        if self.policy is not None:
            return self.policy(self, t, rec)
        """trait methods and the public functions of the pinned API are units of their own;
        private functions, and public ones the API did not have, are looked into"""
        if "tr" in rec or rec.get("in_trait"):
            return True
        return bool(rec.get("eff_pub")) and (not self.vocab or t in self.vocab)

    def root(self, i):
        fn = self.P.fn(i)
        if fn is None:
            raise LookupError("no function " + i)
        self.stats["functions"].add(i)
        return Frame(fn, None)

    def sub(self, frame, bb, t):
        key = ("sub", bb, t)
        if key in frame.memo:
            return frame.memo[key]
        fn = self.P.fn(t)
        self.stats["functions"].add(t)
        args = frame.fn.blocks[bb][1][2]
        th = [(lambda a=a: self.operand(frame, a)) for a in args]
        r = Frame(fn, th, frame, bb)
        frame.memo[key] = r
        return r

    def closure(self, frame, cid, ops, params, site, consumer=None, tag=0):
        key = ("clos", cid, site, tag)
        if key in frame.memo:
            return frame.memo[key]
        fn = self.P.fn(cid)
        if fn is None or frame.depth >= self.maxdepth + 4:
            return None
        self.stats["functions"].add(cid)
        if consumer is not None and not (isinstance(tag, tuple) and tag[0] == "walk"):
            self.ranc.add(cid)
        r = Frame(fn, [lambda: fs(("env",))] + params, frame, site, caps=(frame, ops), kind="closure", consumer=consumer)
        frame.memo[key] = r
        return r

    # ---- values
    def operand(self, frame, op):
        if op[0] == "k":
            return self.konst(frame, op[1])
        return self.place(frame, op[1])

    def konst(self, frame, c):
        if "fn" in c:
            return fs(("fn", self.target(c["fn"]) or c["fn"]["p"], callee_name(c["fn"])))
        if "clos" in c:
            return fs(("closure", c["clos"], frame, None, None))
        if "prom" in c:
            base = frame.fn.id
            if "::promoted[" in base:
                base = base[: base.index("::promoted[")]
            pf = self.P.fn(f"{base}::promoted[{c['prom']}]")
            if pf is None:
                return fs(UNK)
            key = ("prom", c["prom"])
            if key not in frame.memo:
                frame.memo[key] = Frame(pf, [], frame, None, kind="promoted")
            return self.local(frame.memo[key], 0)
        if "str" in c:
            return fs(("const", '"' + norm_str(c["str"]) + '"', c.get("def")))
        if "v" in c:
            d = c.get("def")
            return fs(("const", c["v"], d))
        if "static" in c:
            return fs(("static", c["static"]))
        if "def" in c:
            d = c["def"]
            if d in self.F and frame.depth < self.maxdepth + 3 and not any(f.fn.id == d for f in frame.chain()):
                key = ("const", d)
                if key not in frame.memo:
                    frame.memo[key] = Frame(self.P.fn(d), [], frame, None, kind="promoted")
                r = self.local(frame.memo[key], 0)
                if r and UNK not in r and len(r) <= 4:
                    return frozenset(("named", short_const(d), r) if x[0] != "const" else x for x in r)
            return fs(("named", short_const(d, c), frozenset()))
        if c.get("ty") == "()":
            return fs(("unit",))
        if "tyc" in c:
            return fs(("const", c["tyc"], None))
        return fs(("zst", c.get("ty", "?")))

    def place(self, frame, pl):
        l, proj = pl[0], pl[1:]
        if not proj:
            return self.local(frame, l)
        key = ("pl", l, repr(proj))
        return self._memo(frame, key, lambda: self._place(frame, l, proj))

    def _memo(self, frame, key, compute):
        m = frame.memo.get(key)
        if m is not None:
            u = self.uses.get((id(frame), key))
            if u is None or not self.pins or self.pins.keys().isdisjoint(u):
                if u:
                    self.used.update(u)
                return m
        if self.pins:
            return self._pinned(frame, key, compute)
        outer, self.used = self.used, {}
        try:
            return self._memo2(frame, key, compute)
        finally:
            if self.used:
                self.uses[(id(frame), key)] = self.used
                outer.update(self.used)
            self.used = outer

    def _pinned(self, frame, key, compute):
        ak = (id(frame), key)
        m = self.pinmemo.get(ak)
        if m is not None:
            self.used.update(m[1])
            return m[0]
        pk = ("pin",) + ak + (self.pins.get((frame, key)),)
        if pk in self.active:
            self.hit = -1
            return fs(REC)
        self.active[pk] = len(self.active)
        saved, self.hit = self.hit, 1 << 30
        outer, self.used = self.used, {}
        try:
            r = compute()
        finally:
            del self.active[pk]
            mine, self.used = self.used, outer
            outer.update(mine)
        if len(r) > 1 and REC in r:
            r = r - {REC}
        if self.hit >= 0:
            self.pinmemo[ak] = (r, mine)
            self.hit = saved
        else:
            self.hit = -1 if self.active and any(k[0] == "pin" for k in self.active) else saved
        return r

    def choices(self, evalfn):
        """choice points met when evaluating"""
        outer, self.used = self.used, {}
        try:
            r = evalfn()
            return r, list(self.used)
        finally:
            self.used = outer

    def with_pins(self, pins, evalfn):
        sp, sm = self.pins, self.pinmemo
        self.pins, self.pinmemo = pins, {}
        try:
            return evalfn()
        finally:
            self.pins, self.pinmemo = sp, sm

    def choice(self, frame, key, alts):
        """a value that is one of several: alts is a list of (thunk, condition description)"""
        cp = (frame, key)
        if cp in self.pins:
            return alts[self.pins[cp]][0]()
        self.cps[cp] = [c for _, c in alts]
        self.used[cp] = 1
        out = set()
        for t, _ in alts:
            out |= t()
        return frozenset(out)

    def _memo2(self, frame, key, compute):
        ak = (id(frame), key)
        d = self.active.get(ak)
        if d is not None:
            self.hit = min(self.hit, d)
            return fs(REC)
        depth = len(self.active)
        self.active[ak] = depth
        saved, self.hit = self.hit, 1 << 30
        try:
            r = compute()
        finally:
            del self.active[ak]
        h = self.hit
        if len(r) > 1 and REC in r:
            r = r - {REC}
        if h >= depth:
            frame.memo[key] = r
            self.hit = saved
        else:
            self.hit = min(saved, h)
            self.recomp[ak] = self.recomp.get(ak, 0) + 1
            if self.recomp[ak] > 5:
                frame.memo[key] = r
        return r

    def _place(self, frame, l, proj):
        base = self.local(frame, l)
        r = self.project(frame, base, proj)
        # explicit partial definitions of the same place
        parts = frame.fn.parts.get(l, ())
        extra = set()
        for (bi, pj, k, payload) in parts:
            if pj == proj or (len(pj) < len(proj) and proj[: len(pj)] == pj):
                if "*" in [x for x in pj if isinstance(x, str)] and l <= frame.fn.nargs:
                    continue
                v = self.rvalue(frame, payload, bi) if k == "rv" else self.call(frame, bi)
                rest = proj[len(pj):]
                extra |= self.project(frame, v, rest) if rest else v
        return self._cap(frozenset(r | extra))

    def _cap(self, s):
        if len(s) > MAXSET:
            l = sorted(s, key=lambda e: repr_expr(e, 2))
            return frozenset(l[:MAXSET]) | {("many",)}
        return s

    def project(self, frame, es, proj):
        variant = None
        cur = es
        for p in proj:
            if p == "*" or p == "~":
                continue
            k = p[0]
            if k == "v":
                variant = (p[1], p[2])
                if not is_std(p[2]):
                    keep = frozenset(e for e in cur if not (e[0] == "ctor" and e[1].rsplit("::", 1)[-1] != p[1] and "::" in e[1]))
                    cur = keep or cur
                continue
            if k in ("i", "ci", "ss"):
                variant = None
                continue
            name = p[1]
            owner = p[2] if len(p) > 2 else None
            cur = self._field(frame, cur, name, owner, variant)
            variant = None
        return cur

    def _field(self, frame, es, name, owner, variant):
        if owner == "{closure}":
            return self.capture(frame, name)
        if owner and is_std(owner) and owner not in ("core::ops::Range", "core::ops::range::Range", "core::ops::RangeInclusive"):
            if variant and variant[0] in ("Ok", "Some", "Continue"):
                # drop values known to be errors
                keep = frozenset(e for e in es if e[0] not in ("residual", "none") and not (e[0] == "wrap" and e[1] in ("Err",)))
                es = keep
            elif variant and variant[0] in ("Err", "Break"):
                w = frozenset(e for e in es if e[0] in ("residual",) or (e[0] == "wrap" and e[1] == "Err"))
                if w:
                    es = w | frozenset(e for e in es if e[0] not in ("residual", "wrap"))
            out = set()
            for e in es:
                if e[0] == "wrap":
                    out |= e[2]
                elif e[0] == "residual":
                    out.add(e)
                else:
                    out.add(e)
            return frozenset(out)
        out = set()
        for e in es:
            k = e[0]
            if k == "ctor":
                hit = False
                for (fname, v) in e[2]:
                    if fname == name:
                        out |= v
                        hit = True
                if hit:
                    continue
                for (fname, v) in e[2]:
                    if fname == "..":
                        out |= self._field(frame, v, name, owner, variant)
                        hit = True
                if not hit:
                    continue
            elif k == "tuple" and owner is None:
                try:
                    out |= e[1][int(name)]
                except (ValueError, IndexError):
                    out.add(("fld", e, name))
            elif k == "zip" and owner is None:
                out |= e[1] if name == "0" else e[2]
            elif k == "enum" and owner is None:
                if name == "0":
                    out.add(("idx", e[1]))
                else:
                    out |= e[1]
            elif k == "wrap":
                out |= self._field(frame, e[2], name, owner, variant)
            elif k in ("unk", "many"):
                out.add(e)
            elif k == "none" or e == NEW:
                continue
            elif k == "named" and e[2]:
                out |= self._field(frame, e[2], name, owner, variant)
            else:
                if owner:
                    o = short(owner)
                    if variant and variant[1] == owner:
                        o = o + "::" + variant[0]
                    out.add(("fld", e, o + "." + name))
                else:
                    out.add(("fld", e, name))
        return self._cap(frozenset(out))

    def capture(self, frame, name):
        f = frame
        if f.kind == "promoted":
            f = f.parent
        if f.caps is None:
            return fs(("upvar", name))
        cf, ops = f.caps
        if ops is None:
            return fs(("upvar", name))
        upv = f.fn.rec.get("upv", [])
        try:
            i = upv.index(name)
        except ValueError:
            return fs(("upvar", name))
        if i < len(ops):
            return self.operand(cf, ops[i])
        return fs(UNK)

    def local(self, frame, l):
        return self._memo(frame, l, lambda: self._local(frame, l))

    def _local(self, frame, l):
        fn = frame.fn
        out = set()
        if 1 <= l <= fn.nargs:
            if frame.args is None:
                out.add(("param", l, self._pname(fn, l)))
            elif frame.kind == "closure" and l >= 2 and frame.args and len(frame.args) < fn.nargs:
                out |= frame.args[l - 1]() if l - 1 < len(frame.args) else {UNK}
            else:
                out |= frame.args[l - 1]() if l - 1 < len(frame.args) else {UNK}
        ds = fn.defs.get(l, ())
        chosen = None
        if len(ds) > 1 and not out:
            cp = (frame, l)
            if cp in self.pins:
                i = self.pins[cp]
                before = fn.exclusive(l)[i][1]
                bi, k, payload, _ln = ds[i]
                ev = lambda: self.rvalue(frame, payload, bi) if k == "rv" else self.call(frame, bi)
                if before and len(before) == 1:
                    pins = dict(self.pins)
                    pins[cp] = before[0]
                    out |= self.with_pins(pins, ev)
                elif before:
                    pins = {x: y for x, y in self.pins.items() if x != cp}
                    out |= self.with_pins(pins, ev)
                else:
                    out |= ev()
                ds = ()
            else:
                ex = fn.exclusive(l)
                if ex is not None and not fn.optmap(l):
                    self.cps[cp] = [("blk", frame, ds[i][0], [ds[j][0] for j in after], bool(before))
                                    for i, (after, before) in enumerate(ex)]
                    self.used[cp] = 1
        for (bi, k, payload, _ln) in ds:
            v = self.rvalue(frame, payload, bi) if k == "rv" else self.call(frame, bi)
            out |= v
        parts = fn.parts.get(l, ())
        if parts:
            named = []
            for (bi, pj, k, payload) in parts:
                if pj and pj[0] == "*":
                    continue
                v = self.rvalue(frame, payload, bi) if k == "rv" else self.call(frame, bi)
                if len(pj) == 1 and pj[0][0] == "f":
                    named.append((pj[0][1], v))
                else:
                    named.append(("..part", v))
            if named and not out:
                out.add(("ctor", "?", tuple(named)))
            elif named:
                ext = set()
                for e in out:
                    if e[0] == "ctor":
                        ext.add(("ctor", e[1], e[2] + tuple(named)))
                    else:
                        ext.add(("ctor", "upd", (("..", frozenset([e])),) + tuple(named)))
                out = ext
        # collection building through &mut
        grown = False
        for (t, proj) in (fn.mutrefs.get(l, ()) if l > fn.nargs or l == 0 else ()):
            if any(not isinstance(p, str) and p[0] == "f" for p in proj):
                continue
            for (bi, ai) in fn.call_uses.get(t, ()):
                if ai != 0:
                    continue
                term = fn.blocks[bi][1]
                c = term[1]
                if c.get("n") in COLLECT_MUT and is_std(c["p"]):
                    if maplike(c["p"]) == "map":
                        if c["n"] == "insert" and len(term[2]) == 3:
                            out.add(("tuple", (self.operand(frame, term[2][1]), self.operand(frame, term[2][2]))))
                            grown = True
                            continue
                        if c["n"] == "entry" and len(term[2]) == 2:
                            vs = [self.operand(frame, o) if o is not None else self.closure_value(frame, b2)
                                  for b2, o in fn.slot_puts(bi)]
                            key = self.operand(frame, term[2][1])
                            for v in vs:
                                out.add(("tuple", (key, v)))
                            grown = True
                            continue
                    for a in term[2][1:]:
                        out |= self.operand(frame, a)
                        grown = True
        for (cid, dest, bi, a) in (fn.cappush(l) if l > fn.nargs or l == 0 else ()):
            # pushed to by a closure
            for (ub, ai) in fn.call_uses.get(dest, ()):
                self.call(frame, ub)
                for k, v in list(frame.memo.items()):
                    if isinstance(k, tuple) and k[0] == "clos" and k[1] == cid and v.consumer == (frame, ub):
                        for o in a:
                            out |= self.operand(v, o)
                            grown = True
        if grown and len(out) > 1:
            out = {x for x in out if x not in EMPTIES} or out
        return self._cap(frozenset(out))

    def closure_value(self, frame, bb):
        """what the closure given to the call in bb evaluates to"""
        t = frame.fn.blocks[bb][1]
        return self.apply_fn(frame, self.operand(frame, t[2][-1]), [], bb)

    def _pname(self, fn, l):
        x = fn.locals[l]
        return "self" if len(x) > 1 and x[1] == "self" else f"a{l}"

    def rvalue(self, frame, rv, bb):
        k = rv[0]
        if k == "use":
            return self.operand(frame, rv[1])
        if k == "ref":
            return self.place(frame, rv[2])
        if k == "cast":
            v = self.operand(frame, rv[2])
            if rv[1].startswith(("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat")):
                return fs(("cast", rv[3], v))
            return v
        if k == "bin":
            op = rv[1]
            op = op.replace("WithOverflow", "").replace("Unchecked", "")
            a, b = self.operand(frame, rv[2]), self.operand(frame, rv[3])
            r = fs(("op", BINCMP.get(op, op.lower()), a, b))
            if rv[1].endswith("WithOverflow"):
                return fs(("tuple", (r, fs(("const", "false", None)))))
            return r
        if k == "un":
            if rv[1] == "Not":
                return neg_val(self.operand(frame, rv[2]))
            return fs(("op", rv[1].lower(), self.operand(frame, rv[2])))
        if k == "discr":
            return fs(("discr", rv[2], self.place(frame, rv[1])))
        if k == "agg":
            ops = rv[2]
            if rv[1] == "tuple":
                return tup(tuple(self.operand(frame, o) for o in ops))
            if rv[1] == "array":
                out = set()
                for o in ops:
                    out |= self.operand(frame, o)
                return frozenset(out) or fs(("empty",))
            if rv[1] == "closure":
                return fs(("closure", rv[3], frame, bb, _tup(ops)))
            if rv[1] == "adt":
                return self.ctor(frame, rv[3], rv[4], rv[5], [self.operand(frame, o) for o in ops])
            return fs(UNK)
        if k == "repeat":
            return self.operand(frame, rv[1])
        if k == "tls":
            return fs(("static", rv[1]))
        return fs(UNK)

    def ctor(self, frame, adt, variant, names, vals):
        if is_std(adt):
            if adt in OPTRES:
                if variant in ("Ok", "Some", "Continue"):
                    return vals[0] if vals else fs(("unit",))
                if variant == "None":
                    return fs(("none",))
                if variant in ("Err", "Break"):
                    return fs(("wrap", "Err", vals[0]))
            if short(adt) in ("Range", "RangeInclusive", "RangeFrom", "RangeTo"):
                return fs(("ctor", short(adt), tuple(zip(names, vals))))
            out = set()
            for v in vals:
                out |= v
            if variant and not vals:
                return fs(("ctor", short(adt) + "::" + variant, ()))
            return frozenset(out) or fs(("ctor", short(adt) + ("::" + variant if variant else ""), ()))
        nm = short(adt) + ("::" + variant if variant else "")
        return fs(("ctor", nm, tuple(zip(names, vals))))

    # ---- calls
    def call(self, frame, bb):
        return self._memo(frame, ("call", bb), lambda: self._cap(self._call(frame, bb)))

    def apply_fn(self, frame, es, params, bb, tag=0):
        """apply callable values `es` to parameter exprsets"""
        out = set()
        for e in es:
            if e[0] == "closure":
                cf = self.closure(e[2], e[1], e[4], [thunk(p) for p in params],
                                  e[3] if e[3] is not None else bb, (frame, bb), tag=(id(frame), bb, tag))
                if cf is None:
                    out.add(UNK)
                else:
                    out |= self.local(cf, 0)
            elif e[0] == "fn":
                t = e[1]
                nm = e[2]
                if t in self.F and self._inl_id(t, nm, frame):
                    key = ("subfn", bb, t, tag)
                    if key not in frame.memo:
                        self.stats["functions"].add(t)
                        frame.memo[key] = Frame(self.P.fn(t), [thunk(p) for p in params], frame, bb)
                    out |= self.local(frame.memo[key], 0)
                else:
                    n = nm.rsplit("::", 1)[-1]
                    ps = tuple(p() if callable(p) else p for p in params)
                    if is_std(t) and n in TRANSPARENT | {"into", "from"}:
                        out |= ps[0] if ps else set()
                    elif "::" in nm and nm.rsplit("::", 1)[-1][:1].isupper():
                        out.add(("ctor", nm, tuple((str(i), p) for i, p in enumerate(ps))))
                    else:
                        out.add(("call", nm, ps))
            else:
                out.add(("apply", fs(e), tuple(p() if callable(p) else p for p in params)))
        return frozenset(out)

    def _inl_id(self, t, nm, frame):
        if nm in self.opaque or t in self.opaque or frame.depth >= self.maxdepth:
            return False
        if any(f.fn.id == t for f in frame.chain()):
            return False
        rec = self.F.get(t)
        if self.extra is not None and self.extra(t, rec, nm):
            return True
        return not self.opaque_fn(t, rec)

    def _call(self, frame, bb):
        t = frame.fn.blocks[bb][1]
        c, args = t[1], t[2]
        n = c.get("n", "")
        self.stats["calls"] += 1
        A = lambda i: self.operand(frame, args[i]) if i < len(args) else frozenset()
        if "ctor" in c:
            return self.ctor(frame, c["ctor"], c.get("ctorv"), [str(i) for i in range(len(args))],
                             [A(i) for i in range(len(args))])
        if n in ("call_once", "call_mut", "call") and "tr" in c and short(c["tr"]) in ("FnOnce", "FnMut", "Fn"):
            params = []
            if len(args) > 1:
                tup = A(1)
                cols = {}
                for e in tup:
                    if e[0] == "tuple":
                        for i, v in enumerate(e[1]):
                            cols.setdefault(i, set()).update(v)
                def col(i):
                    out = set()
                    for e in A(1):
                        if e[0] == "tuple" and i < len(e[1]):
                            out |= e[1][i]
                    return frozenset(out)
                params = [(lambda i=i: col(i)) for i in sorted(cols)]
            return self.apply_fn(frame, A(0), params, bb)
        std = is_std(c["p"]) or (("tr" in c) and is_std(c["tr"]))
        if n == "must_use" and len(args) == 1:
            return A(0)
        dc = self.downcast(c)
        if dc and args:
            return self.project(frame, A(0), [["v", dc[1], dc[0]], ["f", "0", dc[0]]])
        if "r" in c and not is_std(c["r"]) and n in ("from", "into", "try_from", "try_into", "eq", "ne", "cmp", "partial_cmp",
                                                     "deref", "fmt", "next", "index", "index_mut", "from_iter", "as_ref",
                                                     "clone", "into_iter", "borrow", "hash", "default", "extend"):
            rec = self.F.get(c["r"]) if c["r"] in self.F else None
            if n in ("eq", "ne"):
                return fs(("op", n, A(0), A(1)))
            if n in ("clone", "deref", "borrow"):
                return A(0)
            if n in ("from", "into", "as_ref", "into_iter", "next", "index", "index_mut", "try_from", "try_into"):
                ti = self.should_inline(c, frame)
                if ti:
                    return self.local(self.sub(frame, bb, ti), 0)
                if n in ("index", "index_mut", "next", "into_iter", "as_ref"):
                    if n in ("index", "index_mut") and len(args) > 1:
                        return fs(("at", A(0), A(1)))
                    return A(0)
                return self.wrap(c, A(0)) or fs(("conv", callee_conv(c), A(0)))
        ml = maplike(c["p"]) if "tr" not in c else None
        if ml == "map":
            if n == "entry" and len(args) == 2:
                return fs(("at", A(0), A(1)))
            if n in ("keys", "into_keys"):
                return self.project(frame, A(0), [["f", "0"]])
            if n in ("values", "into_values", "values_mut"):
                return self.project(frame, A(0), [["f", "1"]])
            if n == "insert" and len(args) == 3:
                return fs(("at", A(0), A(1)))
        elif ml == "entry":
            if n in ("get", "get_mut", "into_mut", "and_modify", "remove"):
                return A(0)
            if n == "key":
                return frozenset(k for e in A(0) if e[0] == "at" for k in e[2]) or A(0)
            if n == "insert":
                return A(1) if "VacantEntry" in c["p"] else A(0)
        if std:
            if n in CMP:
                return fs(("op", CMP[n], A(0), A(1)))
            if n in ("not",):
                return neg_val(A(0))
            if n in ("replace", "take") and c["p"].startswith("core::mem::"):
                return A(0)
            if n in ("bitor", "bitand", "bitxor", "add", "sub", "mul", "div", "rem", "shl", "shr") and "tr" in c:
                return fs(("op", n, A(0), A(1)))
            if n in ("from", "into", "try_from", "try_into"):
                if any(is_ws(g) for g in c.get("g", [])):
                    return self.wrap(c, A(0)) or fs(("conv", callee_conv(c), A(0)))
                return A(0)
            if n == "map_into" and is_ws((c.get("g") or [""])[-1]):
                return fs(("conv", short(c["g"][-1]), A(0)))
            if n == "from_residual":
                return frozenset(("residual", x) if x[0] != "residual" else x for x in A(0)) or fs(("residual", UNK))
            if n == "new" and len(args) == 1:
                return A(0)
            if n == "zip":
                return fs(("zip", A(0), A(1)))
            if n == "zip_eq" or n == "izip":
                return fs(("zip", A(0), A(1)))
            if n == "tuple_windows":
                return fs(("zip", A(0), A(0)))
            if n == "enumerate":
                return fs(("enum", A(0)))
            if n in ("min", "max") and len(args) == 2:
                return fs(("op", n, A(0), A(1)))
            if n in ("unwrap_or", "or") and args[0][0] != "k":
                return self.choice(frame, ("call", bb), [
                    (lambda: self._some(A(0)), ("var", frame, args[0][1], "+", bb)), (lambda: A(1), ("var", frame, args[0][1], "-", bb))])
            if n in ("chain", "or", "unwrap_or", "get_or_insert", "or_insert", "xor", "interleave", "merge", "min", "max", "union"):
                return A(0) | A(1)
            if n in ("skip", "take", "step_by", "rev", "nth", "windows", "chunks"):
                return fs(("std", n, tuple(A(i) for i in range(len(args)))))
            if n == "get_mut" and len(args) > 1:
                return fs(("at", A(0), A(1)))
            if n in ENDS and A(0):
                return fs(("std", ENDS[n], (A(0),)))
            if n in TRANSPARENT:
                return A(0)
            if n in ("get", "index", "index_mut", "get_mut", "remove", "get_index", "shift_remove", "swap_remove"):
                if len(args) > 1:
                    return fs(("at", A(0), A(1)))
                return A(0)
            if n in PRED:
                return fs(("pred", n, A(0), ("cs", frame, bb)))
            if n in KEEP_FILTER:
                return A(0)
            if n in ("then_some",):
                if args[0][0] == "k":
                    return A(1)
                return self.choice(frame, ("call", bb), [
                    (lambda: A(1), ("bool", frame, args[0][1], True)), (lambda: fs(("none",)), ("bool", frame, args[0][1], False))])
            if n in APPLY or any(x[0] in ("closure", "fn") for i in range(1, len(args)) for x in A(i)):
                return self._apply_std(frame, bb, n, c, args, A)
            if n in ("with_capacity", "with_capacity_and_hasher", "with_hasher", "new_in", "with_capacity_in"):
                return fs(NEW)
            if not args:
                return fs(NEW if n in ("default", "new") and "hugr" not in str(c.get("g", "")) else ("std", n, ()))
            return fs(("std", n, tuple(A(i) for i in range(len(args)))))
        ti = self.should_inline(c, frame)
        if ti:
            return self.local(self.sub(frame, bb, ti), 0)
        nm = callee_name(c)
        if len(args) == 1 and nm.endswith("_mut"):
            nm = nm[:-4]        # the same thing, borrowed mutably
        return fs(("call", nm, tuple(A(i) for i in range(len(args)))))

    def diverges(self, es):
        """closures that never return"""
        return bool(es) and all(e[0] == "closure" and self.P.fn(e[1]) is not None and not self.P.fn(e[1]).rets for e in es)

    def wrap(self, c, v):
        """the conversion only wraps its argument in a variant"""
        g = c.get("g", [])
        if len(g) < 2 or c.get("n") not in ("into", "from"):
            return None
        a, b = (g[0], g[1]) if c["n"] == "into" else (g[1], g[0])
        m = self.P.__dict__.setdefault("_wraps", {})
        if (a, b) not in m:
            m[a, b] = None
            mir = (self.F.get(f"<{b} as core::convert::From<{a}>>::from") or {}).get("mir")
            bs = [x for x in mir["blocks"] if x] if mir else []
            if len(bs) == 1 and bs[0][1][0] == "ret" and mir["nargs"] == 1:
                st = bs[0][0]
                ag = [x[1] for x in st if x[0] == [0]]
                use = [x for x in st if x[0] != [0]]
                if len(ag) == 1 and ag[0][0] == "agg" and ag[0][1] == "adt" and len(ag[0][2]) == 1 and ag[0][4] \
                        and ag[0][2][0][0] != "k" and all(x[1][0] == "use" and x[1][1][0] != "k" and x[1][1][1] == [1] for x in use):
                    m[a, b] = ag[0]
        ag = m[a, b]
        return self.ctor(None, ag[3], ag[4], ag[5], [v]) if ag else None

    def downcast(self, c):
        """(enum, variant) when the call converts an enum to the payload of one variant"""
        if c.get("n") not in ("try_into", "try_from"):
            return None
        g = c.get("g", [])
        if len(g) < 2:
            return None
        src, dst = (g[0], g[1]) if c["n"] == "try_into" else (g[1], g[0])
        src, dst = (re.sub(r"^&('\w+ )?(mut )?", "", x) for x in (src, dst))
        d = self.F.adts.get(src)
        if not d or d.get("kind") != "enum":
            return None
        vs = [v["n"] for v in d["variants"] if len(v.get("fields", ())) == 1 and v["fields"][0]["ty"] == dst]
        return (src, vs[0]) if len(vs) == 1 else None

    @staticmethod
    def _some(es):
        return frozenset(x for x in es if x[0] not in ("none", "residual") and not (x[0] == "wrap" and x[1] == "Err")) or es

    def _apply_std(self, frame, bb, n, c, args, A):
        rcv = A(0)
        out = set()
        fpos = [i for i in range(len(args)) if any(x[0] in ("closure", "fn") for x in A(i))]
        val = self._some(rcv)
        V = lambda: self._some(A(0))
        R = lambda: A(0)
        if n in ("map", "and_then", "flat_map", "filter_map", "find_map", "map_while", "map_ok", "for_each", "try_for_each",
                 "flat_map_ok", "filter_map_ok"):
            out |= self.apply_fn(frame, A(1), [V], bb)
            if n in ("map", "and_then"):
                out |= {x for x in rcv if x[0] == "residual" or (x[0] == "wrap" and x[1] == "Err")}
        elif n == "then" and args[0][0] != "k":
            return self.choice(frame, ("call", bb), [
                (lambda: self.apply_fn(frame, A(1), [], bb), ("bool", frame, args[0][1], True)),
                (lambda: fs(("none",)), ("bool", frame, args[0][1], False))])
        elif n in ("then", "or_insert_with", "get_or_insert_with"):
            out |= self.apply_fn(frame, A(1), [], bb)
            if n != "then":
                out |= rcv
        elif n == "map_or" and args[0][0] != "k":
            return self.choice(frame, ("call", bb), [
                (lambda: A(1), ("var", frame, args[0][1], "-", bb)),
                (lambda: self.apply_fn(frame, A(2), [V], bb), ("var", frame, args[0][1], "+", bb))])
        elif n == "map_or_else" and args[0][0] != "k":
            return self.choice(frame, ("call", bb), [
                (lambda: self.apply_fn(frame, A(1), [R], bb, 1), ("var", frame, args[0][1], "-", bb)),
                (lambda: self.apply_fn(frame, A(2), [V], bb, 2), ("var", frame, args[0][1], "+", bb))])
        elif n in ("fold", "try_fold", "fold_while", "fold_ok"):
            out |= A(1) | self.apply_fn(frame, A(2), [lambda: A(1) | fs(("acc",)), V], bb)
        elif n == "unwrap_or_else" and self.diverges(A(1)):
            return val
        elif n in ("unwrap_or_else", "or_else") and args[0][0] != "k":
            return self.choice(frame, ("call", bb), [
                (lambda: val, ("var", frame, args[0][1], "+", bb)),
                (lambda: self.apply_fn(frame, A(1), [R], bb), ("var", frame, args[0][1], "-", bb))])
        elif n in ("map_err",):
            out |= val
            for e in self.apply_fn(frame, A(1), [R], bb):
                out.add(("wrap", "Err", fs(e)))
        elif n in ("ok_or_else",):
            out |= val
            for e in self.apply_fn(frame, A(1), [], bb):
                out.add(("wrap", "Err", fs(e)))
        elif n == "successors" and len(args) == 2:
            # the first one and its successors, as a loop that walks on
            heads = {(e[0], e[1]) for e in rcv if e[0] in ("call", "std")}
            out |= rcv
            out |= {e for e in self.apply_fn(frame, A(1), [V], bb) if (e[0], e[1]) not in heads}
        elif n in ("scan",):
            out |= self.apply_fn(frame, A(2), [lambda: A(1), V], bb)
        else:
            for i in fpos:
                if i == 0:
                    continue
                out |= self.apply_fn(frame, A(i), [V, V], bb, i)
            out |= rcv
            for i in range(1, len(args)):
                if i not in fpos:
                    out |= A(i)
        return frozenset(out)


_OPS = {}


def neg_val(es):
    out = set()
    for e in es:
        if e[0] == "op" and e[1] in NEG:
            out.add(("op", NEG[e[1]]) + e[2:])
        elif e[0] == "op" and e[1] == "not":
            out |= e[2]
        elif e[0] == "const" and e[1] in ("true", "false"):
            out.add(("const", "false" if e[1] == "true" else "true", None))
        else:
            out.add(("op", "not", fs(e)))
    return frozenset(out)


class Ops(tuple):
    """operand list of a closure construction, compared by identity of the MIR node"""
    __hash__ = object.__hash__
    def __eq__(self, o):
        return self is o


def _tup(x):
    if x is None:
        return None
    k = id(x)
    if k not in _OPS:
        _OPS[k] = (x, Ops(x))
    return _OPS[k][1]


def is_ws(g):
    """is the (outermost) type one of the workspace's own?"""
    g = g.lstrip("&").replace("mut ", "").strip()
    m = re.match(r"^<?(?:alloc::boxed::Box|alloc::sync::Arc|alloc::borrow::Cow|core::option::Option)<(.*)>$", g)
    if m:
        return is_ws(m.group(1))
    return g.startswith("hugr") or (g.startswith("<") and "hugr" in g)


def callee_conv(c):
    g = c.get("g", [])
    if c.get("n") in ("into", "try_into") and len(g) >= 2:
        return short(g[1])
    if c.get("n") in ("from", "try_from") and len(g) >= 2:
        return short(g[0])
    return c.get("n", "?")


def short_const(d, c=None):
    if c and c.get("tr"):
        return (short(c["sa"]) + "::" if c.get("sa") else "") + d.rsplit("::", 1)[-1]
    m = re.match(r"^<(.*)>::([A-Za-z_0-9]+)$", d)
    if m:
        return callee_name({"p": d})
    return d.rsplit("::", 1)[-1]


# ---------------------------------------------------------------- printing
def repr_expr(e, depth=6):
    k = e[0]
    if depth <= 0:
        return "…"
    r = lambda s: repr_set(s, depth - 1)
    if k == "param":
        return e[2]
    if k == "fld":
        return repr_expr(e[1], depth) + "." + e[2].rsplit(".", 1)[-1] if "::" not in e[2] else f"{repr_expr(e[1], depth)}.{e[2]}"
    if k == "call":
        return f"{e[1]}({', '.join(r(a) for a in e[2])})"
    if k == "std":
        if not e[2] and e[1] in ("new", "default"):
            return "none"
        return f"{e[1]}({', '.join(r(a) for a in e[2])})"
    if k == "const":
        return str(e[1])
    if k == "named":
        return e[1]
    if k == "ctor":
        return e[1] + ("(" + ", ".join(f"{n}:{r(v)}" if not n.isdigit() else r(v) for n, v in e[2]) + ")" if e[2] else "")
    if k == "tuple":
        return "(" + ", ".join(r(v) for v in e[1]) + ")"
    if k == "op":
        if e[1] == "not" and len(e[2]) == 1:
            (x,) = e[2]
            if x[0] in ("pred", "std") and x[1] in ISNT:
                return f"{ISNT[x[1]]}({r(x[2] if x[0] == 'pred' else x[2][0])})"
        return f"{e[1]}(" + ", ".join(r(v) for v in e[2:]) + ")"
    if k == "wrap":
        return f"{e[1]}({r(e[2])})"
    if k == "residual":
        return "?"
    if k == "at":
        return f"{r(e[1])}[{r(e[2])}]"
    if k == "conv":
        return f"conv<{e[1]}>({r(e[2])})"
    if k == "lam":
        return f"x{e[1]}"
    if k == "closure":
        return "closure"
    if k == "fn":
        return "fn:" + e[2]
    if k == "cast":
        return f"cast<{e[1]}>({r(e[2])})"
    if k == "discr":
        return f"discr({r(e[2])})"
    if k in ("zip",):
        return f"zip({r(e[1])}, {r(e[2])})"
    if k in ("enum", "idx"):
        return f"{k}({r(e[1])})"
    if k == "pred":
        return f"{e[1]}({r(e[2])})"
    if k == "apply":
        return f"apply({r(e[1])}; {', '.join(r(a) for a in e[2])})"
    if k == "static":
        return "static:" + e[1].rsplit("::", 1)[-1]
    if k == "upvar":
        return "^" + e[1]
    if k == "zst":
        return "zst"
    if k == "unit":
        return "()"
    return k


ISNT = {"is_none": "is_some", "is_some": "is_none", "is_ok": "is_err", "is_err": "is_ok"}


def repr_set(s, depth=6):
    if not s:
        return "∅"
    if len(s) > 1:
        # errors are accounted for where they arise
        s = [e for e in s if not (e[0] == "residual" or e[0] == "wrap" and e[1] == "Err")] or [("residual", UNK)]
    l = {repr_expr(e, depth) for e in s}
    if len(l) > 1:
        l.discard("none")
    l = sorted(l)
    if len(l) == 1:
        return l[0]
    if any("rec" in m for m in l):
        l = _unroll(l)
    return "{" + "|".join(l) + "}"


def _unroll(l):
    """a recursive value printed with one round unrolled is the value itself"""
    for m in l:
        i = m.find("{")
        while i >= 0:
            d = 0
            for j in range(i, len(m)):
                d += (m[j] == "{") - (m[j] == "}")
                if d == 0:
                    break
            t = m[i:j + 1]
            if "rec" in t:
                l2 = sorted({x.replace(t, "rec") for x in l})
                if "{" + "|".join(l2) + "}" == t:
                    return l2
            i = m.find("{", i + 1)
    return l


def tokens(s, out=None, depth=12, seen=None):
    """Vocabulary of an expression set: callee names, fields, constructors, constants, operators."""
    if out is None:
        out = set()
    if seen is None:
        seen = set()
    for e in s:
        _tok(e, out, depth, seen)
    return out


def _tok(e, out, depth, seen):
    if depth <= 0 or id(e) in seen:
        return
    seen.add(id(e))
    k = e[0]
    T = lambda s: tokens(s, out, depth - 1, seen)
    if k == "param":
        out.add("param:" + e[2])
    elif k == "fld":
        out.add("." + e[2])
        _tok(e[1], out, depth - 1, seen)
    elif k == "call":
        out.add("call:" + e[1])
        for a in e[2]:
            T(a)
    elif k == "std":
        out.add("std:" + e[1])
        for a in e[2]:
            T(a)
    elif k == "const":
        out.add("const:" + str(e[1]))
    elif k == "named":
        out.add("named:" + e[1])
        T(e[2])
    elif k == "ctor":
        out.add("ctor:" + e[1])
        for _, v in e[2]:
            T(v)
    elif k == "tuple":
        for v in e[1]:
            T(v)
    elif k == "op":
        out.add("op:" + e[1])
        for v in e[2:]:
            T(v)
    elif k == "wrap":
        T(e[2])
    elif k == "residual":
        _tok(e[1], out, depth - 1, seen)
    elif k in ("at", "zip"):
        T(e[1])
        T(e[2])
    elif k == "conv":
        out.add("conv:" + e[1])
        T(e[2])
    elif k in ("cast", "discr"):
        T(e[2])
    elif k in ("enum", "idx"):
        T(e[1])
    elif k == "pred":
        T(e[2])
    elif k == "apply":
        T(e[1])
        for a in e[2]:
            T(a)
    elif k == "static":
        out.add("static:" + e[1].rsplit("::", 1)[-1])
    elif k == "fn":
        out.add("fn:" + e[2])



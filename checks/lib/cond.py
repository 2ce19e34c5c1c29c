"""Path conditions as disjunctive normal forms over value-origin atoms.

A formula is a frozenset of conjunctions, each a frozenset of atoms:
  ("b", positive, text)                     boolean expression
  ("is", subject, adt, allowed, nall)       subject is one of the variants
Canonicalised so that if/else chains, match, early return, `continue`,
closures, helper functions and boolean temporaries give the same formula.
"""
import re
from .an import *
from . import an as AN
from .an import Frame, fs, _tup, repr_set, tokens

TRUE = frozenset([frozenset()])
FALSE = frozenset()
MAXDNF = 24
CALLS = ("call_once", "call_mut", "call")


def neg_atom(a):
    if a[0] == "b":
        return frozenset([frozenset([("b", not a[1], a[2])])])
    _, subj, adt, allowed, names = a
    rest = frozenset(names) - allowed
    if not rest:
        return FALSE
    return frozenset([frozenset([("is", subj, adt, rest, names)])])


def conj_and(a, b):
    """conjunction of two conjunctions or None"""
    if not a:
        return b
    if not b:
        return a
    out = {}
    for x in list(a) + list(b):
        if x[0] == "b":
            k = ("b", x[2])
            if k in out and out[k][1] != x[1]:
                return None
            out[k] = x
        else:
            k = ("is", x[1], x[2])
            if k in out:
                y = out[k]
                al = y[3] & x[3]
                if not al:
                    return None
                out[k] = ("is", x[1], x[2], al, x[4])
            else:
                out[k] = x
    return frozenset(out.values())


def simp(f):
    """merge and absorb"""
    f = set(f)
    for _ in range(40):
        changed = False
        # absorption
        for a in sorted(f, key=len):
            for b in list(f):
                if a is not b and a != b and a <= b:
                    f.discard(b)
                    changed = True
        # c1 = {x} | c2 = {!x,...} -> c2 minus !x ;   {.., x} | {.., !x} -> {..}
        L = sorted(f, key=lambda c: (len(c), sorted(map(str, c))))
        done = False
        for i, a in enumerate(L):
            for b in L:
                if a is b:
                    continue
                m = _merge(a, b)
                if m is not None:
                    f.discard(a)
                    f.discard(b)
                    f |= set(m)
                    done = True
                    break
            if done:
                break
        if not done and not changed:
            break
    if len(f) > MAXDNF:
        common = frozenset.intersection(*f)
        return frozenset([common | {("b", True, "(many alternatives)")}])
    return frozenset(f)


def _merge(a, b):
    da, db = a - b, b - a
    if len(da) == 1:
        (x,) = da
        # b contains the negation of x (and possibly more)
        if x[0] == "b":
            n = ("b", not x[1], x[2])
            if n in db:
                if len(db) == 1:
                    return [a - {x}]
                return [a, b - {n}]
        else:
            for y in db:
                if y[0] == "is" and y[1] == x[1] and y[2] == x[2]:
                    if len(db) == 1:
                        al = x[3] | y[3]
                        base = a - {x}
                        if len(al) >= len(x[4]):
                            return [base]
                        return [base | {("is", x[1], x[2], al, x[4])}]
                    if not (x[3] & y[3]) and len(x[3] | y[3]) >= len(x[4]):
                        return [a, b - {y}]
    return None


def AND(*fs_):
    cur = TRUE
    for f in fs_:
        if f == TRUE:
            continue
        out = set()
        for a in cur:
            for b in f:
                c = conj_and(a, b)
                if c is not None:
                    out.add(c)
        if len(out) > 4 * MAXDNF:
            common = frozenset.intersection(*out)
            out = {common | {("b", True, "(many alternatives)")}}
        cur = simp(out)
    return cur


def OR(fs_):
    out = set()
    for f in fs_:
        out |= f
    if frozenset() in out:
        return TRUE
    return simp(out)


def NOT(f):
    """negation of a small formula"""
    cur = TRUE
    for c in f:
        alts = set()
        for a in c:
            alts |= neg_atom(a)
        if not c:
            return FALSE
        cur = AND(cur, frozenset(alts))
    return cur


MAXPRIME = 48


def canon(f):
    """all prime implicants (a canonical form), or f when there are too many"""
    if f == TRUE or f == FALSE or len(f) < 2:
        return f
    cur = set(f)
    names = {}
    todo = True
    rounds = 0
    while todo:
        todo = False
        rounds += 1
        L = sorted(cur, key=lambda c: (len(c), sorted(map(str, c))))
        for i in range(len(L)):
            for j in range(i):
                for n in _consensus(L[i], L[j]):
                    if any(_implies(n, x) for x in cur):
                        continue
                    cur = {x for x in cur if not _implies(x, n)}
                    cur.add(n)
                    todo = True
            if len(cur) > MAXPRIME or rounds > 60:
                return f
    if frozenset() in cur:
        return TRUE
    out = set()
    for x in cur:
        if not any(y != x and _implies(x, y) for y in cur):
            out.add(x)
    return frozenset(out)


def _vars(c):
    return {(("b", x[2]) if x[0] == "b" else ("is", x[1], x[2])): x for x in c}


def _implies(a, b):
    """conjunction a implies conjunction b"""
    if b <= a:
        return True
    va = _vars(a)
    for k, y in _vars(b).items():
        x = va.get(k)
        if x is None:
            return False
        if k[0] == "b":
            if x[1] != y[1]:
                return False
        elif not x[3] <= y[3]:
            return False
    return True


def _consensus(a, b):
    va, vb = _vars(a), _vars(b)
    clash = []
    for k in va.keys() & vb.keys():
        x, y = va[k], vb[k]
        if k[0] == "b":
            if x[1] != y[1]:
                clash.append(k)
        elif not (x[3] & y[3]):
            clash.append(k)
    if len(clash) > 1:
        return
    ks = clash or [k for k in va.keys() & vb.keys() if k[0] == "is" and va[k][3] != vb[k][3]]
    for v in ks:
        rest = conj_and(frozenset(x for k, x in va.items() if k != v), frozenset(x for k, x in vb.items() if k != v))
        if rest is None:
            continue
        if v[0] == "is":
            al = va[v][3] | vb[v][3]
            if len(al) < len(va[v][4]) or not va[v][4]:
                rest = rest | {("is", v[1], v[2], al, va[v][4])}
        yield rest


def equivalent(f, g):
    """are two formulas the same boolean function (False when it cannot be told)?"""
    if f == g:
        return True
    return _taut_eq(f, g, [0])


def _assign(f, k, val):
    out = set()
    for c in f:
        keep = []
        ok = True
        for x in c:
            kk = ("b", x[2]) if x[0] == "b" else ("is", x[1], x[2])
            if kk != k:
                keep.append(x)
            elif k[0] == "b":
                if x[1] != val:
                    ok = False
                    break
            elif val not in x[3]:
                ok = False
                break
        if ok:
            if not keep:
                return TRUE
            out.add(frozenset(keep))
    return frozenset(out)


def _taut_eq(f, g, budget):
    if f == g:
        return True
    budget[0] += 1
    if budget[0] > 20000:
        return False
    if not f or not g or f == TRUE or g == TRUE:
        if (f == TRUE and not g) or (g == TRUE and not f):
            return False
    cnt = {}
    dom = {}
    for h in (f, g):
        for c in h:
            for x in c:
                k = ("b", x[2]) if x[0] == "b" else ("is", x[1], x[2])
                cnt[k] = cnt.get(k, 0) + 1
                if x[0] == "b":
                    dom[k] = (True, False)
                else:
                    dom[k] = tuple(sorted(set(dom.get(k, ())) | set(x[4]) | set(x[3])))
    k = max(sorted(cnt, key=str), key=lambda z: cnt[z])
    # values never told apart are tried once
    if k[0] == "is":
        sig = {}
        for v in dom[k]:
            sg = frozenset(x for h in (f, g) for c in h for x in c
                           if x[0] == "is" and (x[1], x[2]) == k[1:] and v in x[3])
            sig.setdefault(sg, v)
        vals = list(sig.values())
    else:
        vals = dom[k]
    return all(_taut_eq(_assign(f, k, v), _assign(g, k, v), budget) for v in vals)


def many(f):
    return any(a[0] == "b" and a[2] == "(many alternatives)" for c in f for a in c)


def fmt_atom(a):
    if a[0] == "b":
        return ("" if a[1] else "!") + a[2]
    _, subj, adt, allowed, names = a
    if names and len(allowed) * 2 > len(names) and len(names) > 2:
        return f"{subj} is not {'|'.join(sorted(set(names) - allowed))}"
    return f"{subj} is {'|'.join(sorted(allowed))}"


def fmt(f, sep="\n"):
    if f == TRUE:
        return "always"
    if f == FALSE:
        return "never"
    f = canon(f)
    if f == TRUE:
        return "always"
    cs = [" & ".join(sorted(fmt_atom(a) for a in c)) for c in f]
    return " || ".join(sorted(cs))


def _without(g, F):
    """drop from g what F already says"""
    if len(F) == 1:
        (c,) = F
        return frozenset(x - c for x in g)
    return g


OPT = ("None/Err", "Some/Ok")


def fn_defs(frame, pl):
    """definitions of a local, through plain moves"""
    for _ in range(6):
        ds = frame.fn.defs.get(pl[0], [])
        if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "use" and ds[0][2][1][0] != "k" and len(ds[0][2][1][1]) == 1:
            pl = ds[0][2][1][1]
            continue
        return ds
    return []


class Cond:
    def __init__(self, an, depth=5):
        self.an = an
        self.splits = 0
        self.depth = depth
        self.guard = set()
        self.toks = {}
        self.enum = None

    # ---------------------------------------------------------------- atoms
    def text(self, e):
        t = repr_set(e, self.depth)
        if t not in self.toks:
            self.toks[t] = frozenset(tokens(e))
        return t

    def b(self, pos, text):
        return frozenset([frozenset([("b", pos, text)])])

    def is_(self, e, adt, allowed, names):
        names = frozenset(names)
        allowed = frozenset(allowed)
        if names and allowed >= names:
            return TRUE
        if not allowed:
            return FALSE
        # values known to be of a given variant
        if adt and adt != "?":
            known = set()
            allk = True
            for x in e:
                if x[0] == "ctor" and x[1].startswith(adt + "::"):
                    known.add(x[1].rsplit("::", 1)[-1])
                else:
                    allk = False
            if allk and e:
                if known <= allowed:
                    return TRUE
                if not (known & allowed):
                    return FALSE
        return frozenset([frozenset([("is", self.text(e), adt, allowed, names)])])

    def enum_variants(self, name):
        if self.enum is None:
            self.enum = {}
            for i, d in self.an.F.adts.items():
                if d.get("kind") == "enum":
                    self.enum[short(i)] = frozenset(v["n"] for v in d["variants"])
            self.enum.setdefault("Direction", frozenset(["Incoming", "Outgoing"]))
            self.enum.setdefault("Ordering", frozenset(["Less", "Equal", "Greater"]))
        return self.enum.get(name)

    def eq(self, a, b, want):
        for x, y in ((a, b), (b, a)):
            if len(x) == 1:
                (c,) = x
                if c[0] == "ctor" and "::" in c[1] and not c[2]:
                    en, v = c[1].rsplit("::", 1)
                    names = self.enum_variants(en)
                    if names and v in names:
                        al = frozenset([v]) if want else names - {v}
                        return self.is_(y, en, al, names)
                if c[0] == "none":
                    return self.opt(y, not want)
                if c[0] == "const" and c[1] in ("true", "false"):
                    return self.bexpr(y, (c[1] == "true") == want)
                if c[0] == "const" and c[1] == "0":
                    n = self._len(y)
                    if n is not None:
                        return self.b(want, f"empty({self.text(n)})")
        x, y = self.text(a), self.text(b)
        if y < x:
            x, y = y, x
        if x == y and len(a) == 1:
            return TRUE if want else FALSE
        return self.b(want, f"{x} == {y}")

    @staticmethod
    def _len(e):
        if len(e) == 1:
            (x,) = e
            if x[0] == "std" and x[1] in ("len", "count") and x[2]:
                return x[2][0]
        return None

    @staticmethod
    def _int(e):
        if len(e) == 1:
            (x,) = e
            if x[0] == "const":
                try:
                    return int(str(x[1]).split("_")[0])
                except ValueError:
                    return None
        return None

    def less(self, op, a, b):
        """op in lt, le"""
        ia, ib = self._int(a), self._int(b)
        if op == "le" and ib is not None:
            op, b, ib = "lt", fs(("const", str(ib + 1), None)), ib + 1
        elif op == "le" and ia is not None:
            op, a, ia = "lt", fs(("const", str(ia - 1), None)), ia - 1
        if op == "lt" and ia == 0:
            return self.eq(fs(("const", "0", None)), b, False)
        if op == "lt" and ib == 1:
            return self.eq(fs(("const", "0", None)), a, True)
        if op == "le":
            # a <= b  is  !(b < a)
            return self.b(False, f"{self.text(b)} < {self.text(a)}")
        if ia is not None:
            # n < x  is !(x < n+1)
            return self.b(False, f"{self.text(b)} < {ia + 1}")
        return self.b(True, f"{self.text(a)} < {self.text(b)}")

    def bexpr(self, e, want):
        if len(e) == 1:
            (x,) = e
            k = x[0]
            if k == "op":
                o = x[1]
                if o == "not":
                    return self.bexpr(x[2], not want)
                if o in ("eq", "ne"):
                    return self.eq(x[2], x[3], want if o == "eq" else not want)
                if o in ("lt", "le", "gt", "ge"):
                    o = o if want else NEG[o]
                    a, b = x[2], x[3]
                    if o in ("gt", "ge"):
                        o = {"gt": "lt", "ge": "le"}[o]
                        a, b = b, a
                    return self.less(o, a, b)
                if o in ("bitand", "bitor"):
                    fa, fb = self.bexpr(x[2], want), self.bexpr(x[3], want)
                    return AND(fa, fb) if (o == "bitand") == want else OR([fa, fb])
            if k == "const" and x[1] in ("true", "false"):
                return TRUE if (x[1] == "true") == want else FALSE
            if k in ("std", "call") and x[1].rsplit("::", 1)[-1] == "is_empty" and len(x[2]) == 1:
                return self.b(want, f"empty({self.text(x[2][0])})")
            if k == "std" and x[1] in ("is_some", "is_ok") and x[2]:
                return self.opt(x[2][0], want)
            if k == "std" and x[1] in ("is_none", "is_err") and x[2]:
                return self.opt(x[2][0], not want)
            if k == "std" and x[1] == "contains_key" and len(x[2]) == 2:
                return self.opt(fs(("at", x[2][0], x[2][1])), want)
        return self.b(want, self.text(e))

    def opt(self, e, positive):
        if e and all(x[0] == "none" for x in e):
            return FALSE if positive else TRUE
        return frozenset([frozenset([("is", self.text(frozenset(x for x in e if x[0] != "none") or e), "?",
                                      frozenset([OPT[1] if positive else OPT[0]]), frozenset(OPT))])])

    # ---------------------------------------------------------------- blocks
    def _ctl(self, fn, bb):
        """pruned CFG for target bb and its control dependences.
        Returns block -> list of (switch block, successor)"""
        key = "_ctl"
        cache = fn.__dict__.setdefault(key, {})
        bad = self._bad(fn)
        if bb not in bad:
            if "ok" not in cache:
                cache["ok"] = self._cdg(fn, fn.reach - bad)
            return cache["ok"]
        if bb in cache:
            return cache[bb]
        # error target: the normal graph plus whatever lies on a way to bb, plus what follows it
        back = {bb}
        st = [bb]
        while st:
            x = st.pop()
            for p in fn.pred[x]:
                if p not in back:
                    back.add(p)
                    st.append(p)
        keep = (fn.reach - bad) | (back & fn.reach) | fn.reach_from(bb)
        # once the error is certain, what decides between errors is a condition
        canret = fn.__dict__["_canret"]
        st = [x for x in back if x in bad and x in canret]
        seen = set(st)
        while st:
            for y in fn.succ[st.pop()]:
                if y not in seen and y in canret:
                    seen.add(y)
                    st.append(y)
        keep |= seen & fn.reach
        cache[bb] = self._cdg(fn, keep)
        return cache[bb]

    def _bad(self, fn):
        m = fn.__dict__.get("_bad")
        if m is None:
            canret = set()
            st = list(fn.rets)
            canret |= set(st)
            while st:
                x = st.pop()
                for p in fn.pred[x]:
                    if p not in canret:
                        canret.add(p)
                        st.append(p)
            fn.__dict__["_canret"] = canret
            m = set(fn.reach - canret)
            if fn.mir["locals"][0][0].startswith("core::result::Result"):
                e = fn.err_only
                if 0 not in e:
                    m |= e
            if 0 in m:
                m = set()
            fn.__dict__["_bad"] = m
        return m

    @staticmethod
    def _loops(fn):
        """natural loops: header -> (body, latches), and the block that decides on another round"""
        m = fn.__dict__.get("_loops")
        if m is not None:
            return m
        m = {}
        for u in fn.reach:
            for h in fn.succ[u]:
                if fn.dominates(h, u):
                    body, latches = m.setdefault(h, ({h}, set()))
                    latches.add(u)
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in fn.pred[x])
        out = {}
        for h, (body, latches) in m.items():
            s = h
            n = 0
            while len([y for y in fn.succ[s]]) == 1 and n < 50 and fn.succ[s][0] in body and fn.succ[s][0] != h:
                s = fn.succ[s][0]
                n += 1
            if fn.blocks[s][1][0] != "switch":
                s = None
            out[h] = (frozenset(body), frozenset(latches), s)
        fn.__dict__["_loops"] = out
        return out

    def _cdg(self, fn, keep):
        """control dependence on the acyclic graph in which a loop runs once: the end of the
        body continues where the loop goes when it is exhausted"""
        succ = {b: [y for y in fn.succ[b] if y in keep] for b in keep}
        loops = self._loops(fn)
        for h in sorted(loops, key=lambda h: -len(loops[h][0])):
            body, latches, head = loops[h]
            if h not in keep:
                continue
            ex = [y for y in succ.get(head, ()) if y not in body] if head is not None else []
            for u in latches:
                if u in keep and h in succ[u]:
                    new = [y for y in succ[u] if y != h]
                    succ[u] = new + [y for y in ex if y not in new]
        exits = [b for b in keep if not succ[b]]
        # reverse postorder on the reversed graph
        pred = {b: [] for b in keep}
        for b in keep:
            for y in succ[b]:
                pred[y].append(b)
        EXIT = -1
        rs = dict(pred)
        rs[EXIT] = exits
        seen, order = {EXIT}, []
        st = [(EXIT, iter(rs[EXIT]))]
        while st:
            b, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(rs[y])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        ip = {EXIT: EXIT}
        rsucc = {b: ([EXIT] if not succ[b] else succ[b]) for b in keep}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in rsucc[b]:
                    if p in ip:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = ip[x]
                                while num[y] > num[x]:
                                    y = ip[y]
                            new = x
                if new is not None and ip.get(b) != new:
                    ip[b] = new
                    changed = True
        cd = {b: [] for b in keep}
        for b in keep:
            if len(succ[b]) < 2 or b not in ip:
                continue
            for y in succ[b]:
                x = y
                n = 0
                while x != ip[b] and x != EXIT and x in ip and n < 100000:
                    cd[x].append((b, y))
                    x = ip[x]
                    n += 1
        return cd, succ

    def block(self, frame, bb):
        key = ("B", bb)
        m = frame.nec.get(key)
        if m is not None:
            return m
        cd, succ = self._ctl(frame.fn, bb)
        r = self._blk(frame, bb, cd, succ, {}, None)
        frame.nec[key] = r
        return r

    def _blk(self, frame, bb, cd, succ, memo, stop):
        if bb == stop:
            return TRUE
        key = (bb, stop)
        if key in memo:
            return memo[key]
        memo[key] = TRUE
        deps = sorted(set(cd.get(bb, [])))
        fn = frame.fn
        loops = self._loops(fn)
        alts = []
        every = {}
        if not deps:
            return TRUE
        for (s, y) in deps:
            L = None
            for h, (body, latches, head) in loops.items():
                if s in body and bb not in body and head is not None and (L is None or len(body) > len(loops[L][0])):
                    if s == head or not self._direct(fn, succ, y, bb, body, latches):
                        L = h
            if L is not None:
                every.setdefault(L, []).append((s, y))
                continue
            up = self._blk(frame, s, cd, succ, memo, stop)
            if up == FALSE:
                continue
            alts.append(AND(up, self.edge(frame, s, y, succ[s])))
        for h, ds in every.items():
            body, latches, head = loops[h]
            inner = [(s, y) for s, y in ds if s != head]
            base = self._blk(frame, head, cd, succ, memo, stop)
            if not inner:
                r = OR([self.edge(frame, s, y, succ[s]) for s, y in ds])
                alts.append(AND(base, r))
                continue
            rest = []
            for s, y in inner:
                up = self._blk(frame, s, cd, succ, memo, head)
                rest.append(AND(up, self.edge(frame, s, y, succ[s])))
            # entering the body is implied; a filter on the elements excuses them
            ent = [y for y in succ.get(head, ()) if y in body]
            F = OR([self.edge(frame, head, y, succ[head]) for y in ent]) if ent else TRUE
            g = OR(rest)
            known = frozenset.intersection(*base) if base and not many(base) else None
            if known and g != TRUE and g != FALSE:
                g = simp(frozenset(c - known for c in g))      # holds before the loop already
            if F != TRUE:
                g = OR([_without(g, F), NOT(F)])
            alts.append(AND(base, self.ALL(g, self._over(frame, head))))
        r = OR(alts) if alts else TRUE
        memo[key] = r
        return r

    @staticmethod
    def _direct(fn, succ, y, bb, body, latches):
        """does y lead to bb without finishing the loop body?"""
        seen, st = {y}, [y]
        while st:
            x = st.pop()
            if x == bb:
                return True
            for z in succ.get(x, ()):
                if x in latches and z not in fn.succ[x]:
                    continue
                if z not in seen:
                    seen.add(z)
                    st.append(z)
        return False

    def _over(self, frame, head):
        """what a loop ranges over"""
        fn = frame.fn
        t = fn.blocks[head][1]
        if t[0] == "switch" and t[1][0] != "k" and len(t[1][1]) == 1:
            for (bi, k, payload, _) in fn.defs.get(t[1][1][0], ()):
                if k == "rv" and payload[0] == "discr":
                    for (b2, k2, p2, _) in fn.defs.get(payload[1][0], ()):
                        if k2 != "rv" and p2[1].get("n") == "next" and p2[2]:
                            return self.text(self.an.operand(frame, p2[2][0]))
        return "loop"

    def edge(self, frame, s, y, succs):
        """condition of taking s -> y, given that only `succs` count"""
        fn = frame.fn
        t = fn.blocks[s][1]
        if t[0] != "switch":
            return TRUE
        vals, neg = set(), set()
        for v, z in t[2]:
            if z == y:
                vals.add(v)
            elif z in succs:
                neg.add(v)
        other = t[3] == y
        # a switch all of whose other branches were pruned is no condition
        if not [z for z in succs if z != y]:
            return TRUE
        pruned = {v for v, z in t[2] if z not in succs}
        return self.switch(frame, s, vals, neg, other, pruned)

    def switch(self, frame, s, vals, neg, has_other, pruned=frozenset()):
        fn = frame.fn
        t = fn.blocks[s][1]
        op = t[1]
        if op[0] == "k":
            return TRUE
        pl = op[1]
        if len(pl) == 1:
            d = [x for x in fn.defs.get(pl[0], ()) if x[1] == "rv"]
            if len(d) == 1 and d[0][2][0] == "discr":
                _, dpl, adt, vs = d[0][2]
                names = {v: n for v, n in vs}
                if has_other:
                    listed = {v for v, _ in t[2]}
                    allowed = {n for v, n in names.items() if v not in listed or v in vals}
                else:
                    allowed = {names.get(v, v) for v in vals}
                return self.variant(frame, dpl, adt, frozenset(allowed), frozenset(names.values()), s)
            if len(d) == 1 and d[0][2][0] == "use" and d[0][2][1][0] in ("c", "m"):
                return self.value(frame, d[0][2][1][1], fn.locals[pl[0]][0], vals, neg, has_other, s)
        ty = fn.locals[pl[0]][0] if len(pl) == 1 else "?"
        return self.value(frame, pl, ty, vals, neg, has_other, s)

    def value(self, frame, pl, ty, vals, neg, has_other, s):
        t = frame.fn.blocks[s][1]
        listed = {v for v, _ in t[2]}
        if listed <= {"0"} and (ty == "bool" or ty.endswith("bool") or ty == "?"):
            want = "0" not in vals
            r = self.boolean(frame, pl, want)
            return AND(r, self.sofar(frame, pl, want, s))
        e = self.an.place(frame, pl)
        c = lambda v: fs(("const", v, None))
        if has_other:
            return AND(*[self.eq(e, c(v), False) for v in sorted(listed - vals)])
        return OR([self.eq(e, c(v), True) for v in sorted(vals)])

    def sofar(self, frame, pl, want, s):
        """a flag that earlier rounds of the loop may have changed"""
        fn = frame.fn
        l = pl[0] if len(pl) == 1 else None
        for _ in range(4):
            ds = fn.defs.get(l, []) if l is not None and l > fn.nargs else []
            if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "use" and ds[0][2][1][0] != "k" \
                    and len(ds[0][2][1][1]) == 1:
                l = ds[0][2][1][1][0]
                continue
            break
        else:
            return TRUE
        if len(ds) < 2:
            return TRUE
        best = None
        for h, (body, latches, head) in self._loops(fn).items():
            if s in body and (best is None or len(body) < len(best)):
                best = body
        if best is None:
            return TRUE
        ds = [d for d in ds if s in fn.reach_from(d[0])]
        ins = [d for d in ds if d[0] in best]
        if ins and len(ins) < len(ds) and any(self._booldef(frame, d, not want, 0) != FALSE for d in ins) \
                and all(self._booldef(frame, d, want, 0) == TRUE for d in ds if d not in ins):
            return self.b(True, "so far " + ("set" if want else "unset"))
        return TRUE

    # ---------------------------------------------------------------- booleans
    def split(self, ev, atom):
        """atom over a value that is one of several: one alternative for each"""
        an = self.an
        base = ev()
        if self.splits > 1 or len(base) > 8 or all(x[0] in ("param", "const", "none") for x in base):
            return atom(base)
        self.splits += 1
        try:
            out = []
            if self._split(ev, atom, {}, TRUE, out, 0):
                r = OR(out)
                if not many(r):
                    return r
        finally:
            self.splits -= 1
        return atom(base)

    def split2(self, ev1, ev2, atom):
        return self.split(ev1, lambda a: self.split(ev2, lambda b: atom(a, b)))

    def _split(self, ev, atom, pins, f, out, d):
        an = self.an
        v, cps = an.with_pins({**an.pins, **pins}, lambda: an.choices(ev))
        cps = [c for c in cps if c not in pins]
        if not cps:
            if v:
                out.append(AND(f, atom(v)))
            return len(out) <= 8
        if d > 2:
            return False
        for i, c in enumerate(an.cps[cps[0]]):
            g = AND(f, self.altcond(c))
            if many(g):
                return False
            if g != FALSE and not self._split(ev, atom, {**pins, cps[0]: i}, g, out, d + 1):
                return False
        return True

    def altcond(self, c):
        if c[0] == "blk":
            g = self.block(c[1], c[2])
            for b in c[3]:
                g = AND(g, NOT(self.block(c[1], b)))
            return g
        if c[0] == "var":
            return self.variant(c[1], c[2], None, {c[3]}, None, c[4])
        if c[0] == "bool":
            return self.boolean(c[1], c[2], c[3])
        return TRUE

    def boolean(self, frame, pl, want, seen=0):
        fn = frame.fn
        if seen > 14:
            return TRUE
        if len(pl) == 1 and (pl[0] > fn.nargs or pl[0] == 0):
            l = pl[0]
            ds = fn.defs.get(l, [])
            if ds:
                key = ("bool", id(frame), l, want)
                if key in self.guard:
                    return TRUE
                self.guard.add(key)
                try:
                    if len(ds) == 1:
                        return self._booldef(frame, ds[0], want, seen)
                    alts = []
                    for d in ds:
                        a = self._accum(frame, l, d, want, seen)
                        if a is None:
                            a = self._booldef(frame, d, want, seen)
                        if a == FALSE:
                            continue
                        alts.append(AND(a, self.block(frame, d[0])))
                    return OR(alts)
                finally:
                    self.guard.discard(key)
        elif len(pl) == 1 and frame.args is not None and frame.kind == "call" and frame.parent is not None \
                and frame.site is not None:
            ct = frame.parent.fn.blocks[frame.site][1]
            if ct[0] == "call" and pl[0] - 1 < len(ct[2]) and ct[2][pl[0] - 1][0] != "k" and len(frame.args) == len(ct[2]):
                return self.boolean(frame.parent, ct[2][pl[0] - 1][1], want, seen + 1)
        if len(pl) > 1:
            r = self._spread(frame, pl, lambda f, p: self.boolean(f, p, want, seen + 1),
                             lambda f, o: self.bexpr(self.an.operand(f, o), want), seen)
            if r is not None:
                return r
        return self.split(lambda: self.an.place(frame, pl), lambda e: self.bexpr(e, want))

    def _spread(self, frame, pl, at_place, at_const, seen, d=0):
        """a projection of a local built by several aggregates: one alternative for each.
        None when the local is not such a value"""
        fn = frame.fn
        l = pl[0]
        proj = [p for p in pl[1:] if p not in ("*", "~")]
        if d > 10 or seen > 14 or not proj or (l <= fn.nargs and l != 0) or fn.parts.get(l):
            return None
        ds = fn.defs.get(l, [])
        if not ds or len(ds) > 12:
            return None
        key = ("spread", id(frame), l, repr(proj))
        if key in self.guard:
            return None
        self.guard.add(key)
        try:
            alts = []
            for (bi, k, payload, ln) in ds:
                r = None
                if k == "rv":
                    rv = payload
                    if rv[0] == "use" and rv[1][0] != "k":
                        r = self._spread(frame, [rv[1][1][0]] + list(rv[1][1][1:]) + proj, at_place, at_const, seen, d + 1)
                        if r is None and len(ds) > 1:
                            r = at_place(frame, list(rv[1][1]) + proj)
                    elif rv[0] == "ref":
                        r = self._spread(frame, list(rv[2]) + proj, at_place, at_const, seen, d + 1)
                        if r is None and len(ds) > 1:
                            r = at_place(frame, list(rv[2]) + proj)
                    elif rv[0] == "agg" and rv[1] in ("tuple", "adt"):
                        p = proj
                        if p[0][0] == "v":
                            if rv[1] == "adt" and rv[4] != p[0][1]:
                                continue
                            p = p[1:]
                        if not p or p[0][0] != "f":
                            return None
                        if rv[1] == "tuple":
                            try:
                                op = rv[2][int(p[0][1])]
                            except (ValueError, IndexError):
                                return None
                        else:
                            if p[0][1] not in (rv[5] or []):
                                return None
                            op = rv[2][rv[5].index(p[0][1])]
                        if op[0] == "k":
                            if len(p) > 1:
                                return None
                            r = at_const(frame, op)
                        else:
                            r = self._spread(frame, list(op[1]) + p[1:], at_place, at_const, seen, d + 1) if p[1:] else None
                            if r is None:
                                r = at_place(frame, list(op[1]) + p[1:])
                else:
                    c = payload[1]
                    if c.get("n") == "from_residual":
                        continue
                    n = c.get("n")
                    if n in ("branch", "unwrap", "expect", "clone", "cloned", "copied", "as_ref") and self._std(c) \
                            and payload[2] and payload[2][0][0] != "k":
                        p = proj
                        src = list(payload[2][0][1])
                        if n == "branch":
                            if p[0][0] == "v" and p[0][1] == "Continue" and len(p) > 1:
                                ty = fn.locals[src[0]][0] if len(src) == 1 else ""
                                v = "Some" if ty.startswith("core::option") else "Ok"
                                p = [["v", v, "core::option::Option"], p[1]] + p[2:]
                            else:
                                return None
                        elif n in ("unwrap", "expect"):
                            ty = fn.locals[src[0]][0] if len(src) == 1 else ""
                            v = "Some" if ty.startswith("core::option") else "Ok"
                            p = [["v", v, "core::option::Option"], ["f", "0", "core::option::Option"]] + p
                        r = self._spread(frame, src + p, at_place, at_const, seen, d + 1)
                    else:
                        fr = self.callee_frames(frame, bi)
                        rs = [self._spread(f, [0] + proj, at_place, at_const, seen, d + 1) for f in fr]
                        if rs and all(x is not None for x in rs):
                            r = OR(rs)
                if r is None:
                    return None
                if r == FALSE:
                    continue
                alts.append(AND(r, self.block(frame, bi)) if len(ds) > 1 and not fn.optmap(l) else r)
            return OR(alts)
        finally:
            self.guard.discard(key)

    def _accum(self, frame, l, d, want, seen):
        """x |= y sets x when y, x &= y clears it when not y"""
        rv = d[2]
        if d[1] != "rv" or rv[0] != "bin" or rv[1] not in ("BitOr", "BitAnd"):
            return None
        for me, o in ((rv[2], rv[3]), (rv[3], rv[2])):
            if me[0] in ("c", "m") and me[1] == [l]:
                if want != (rv[1] == "BitOr"):
                    return FALSE
                return self.bexpr(self.an.operand(frame, o), want) if o[0] == "k" else self.boolean(frame, o[1], want, seen + 1)
        return None

    def _booldef(self, frame, d, want, seen):
        bi, k, payload, _ = d
        if k == "rv":
            rv = payload
            if rv[0] == "use":
                if rv[1][0] == "k":
                    v = rv[1][1].get("v")
                    if v in ("true", "false"):
                        return TRUE if (v == "true") == want else FALSE
                    return self.bexpr(self.an.operand(frame, rv[1]), want)
                return self.boolean(frame, rv[1][1], want, seen + 1)
            if rv[0] == "un" and rv[1] == "Not" and rv[2][0] != "k":
                return self.boolean(frame, rv[2][1], not want, seen + 1)
            if rv[0] == "bin" and rv[1] in ("BitAnd", "BitOr"):
                parts = []
                for o in (rv[2], rv[3]):
                    if o[0] == "k":
                        parts.append(self.bexpr(self.an.operand(frame, o), want))
                    else:
                        parts.append(self.boolean(frame, o[1], want, seen + 1))
                return AND(*parts) if (rv[1] == "BitAnd") == want else OR(parts)
            if rv[0] == "bin" and rv[1] in ("Eq", "Ne") and rv[2][0] != "k" and rv[3][0] != "k" \
                    and self._isbool(frame, rv[2]) and self._isbool(frame, rv[3]):
                w = want if rv[1] == "Eq" else not want
                a1, a0 = self.boolean(frame, rv[2][1], True, seen + 1), self.boolean(frame, rv[2][1], False, seen + 1)
                b1, b0 = self.boolean(frame, rv[3][1], True, seen + 1), self.boolean(frame, rv[3][1], False, seen + 1)
                return OR([AND(a1, b1), AND(a0, b0)] if w else [AND(a1, b0), AND(a0, b1)])
            if rv[0] == "bin" and rv[1] in BINCMP:
                return self.split2(lambda: self.an.operand(frame, rv[2]), lambda: self.an.operand(frame, rv[3]),
                                   lambda x, y: self.bexpr(fs(("op", BINCMP[rv[1]], x, y)), want))
            return self.bexpr(self.an.rvalue(frame, rv, bi), want)
        return self.call_bool(frame, bi, want)

    @staticmethod
    def _isbool(frame, op):
        return len(op[1]) == 1 and frame.fn.locals[op[1][0]][0] == "bool"

    def _std(self, c):
        return is_std(c["p"]) or (("tr" in c) and is_std(c["tr"]))

    def call_bool(self, frame, bb, want):
        an = self.an
        t = frame.fn.blocks[bb][1]
        c, args = t[1], t[2]
        n = c.get("n", "")
        std = self._std(c)
        a0 = args[0] if args else None
        if n in CALLS and std:
            fr = self.callee_frames(frame, bb)
            if fr:
                return OR([self.boolean(f, [0], want) for f in fr])
        elif std:
            if n in ("is_some", "is_ok") and a0[0] != "k":
                return self.variant(frame, a0[1], None, {"+"} if want else {"-"}, None, bb)
            if n in ("is_none", "is_err") and a0[0] != "k":
                return self.variant(frame, a0[1], None, {"-"} if want else {"+"}, None, bb)
            if n == "not" and a0[0] != "k":
                return self.boolean(frame, a0[1], not want)
            if n in ("bitand", "bitor") and "tr" in c:
                fr = None
            if n in ("eq", "ne") and len(args) == 2:
                return self.split2(lambda: an.operand(frame, args[0]), lambda: an.operand(frame, args[1]),
                                   lambda x, y: self.eq(x, y, want if n == "eq" else not want))
            if n in ("lt", "le", "gt", "ge") and len(args) == 2:
                return self.split2(lambda: an.operand(frame, args[0]), lambda: an.operand(frame, args[1]),
                                   lambda x, y: self.bexpr(fs(("op", n, x, y)), want))
            if n == "is_empty" and a0 is not None:
                return self.split(lambda: an.operand(frame, a0), lambda e: self.b(want, f"empty({self.text(e)})"))
            if n in ("insert", "remove") and len(args) == 2 and "Set<" in c["p"].split(">::")[0]:
                return self.b(want == (n == "remove"), f"{self.text(an.operand(frame, args[1]))} in {self.text(an.operand(frame, args[0]))}")
            if n == "contains" and len(args) == 2:
                return self.b(want, f"{self.text(an.operand(frame, args[1]))} in {self.text(an.operand(frame, args[0]))}")
            if n in PRED and len(args) > 1:
                quant = PRED[n][0]
                opt = n.startswith("is_")
                inner = self.closure_bool(frame, bb, 1, want)
                if opt:
                    # is_some_and: want -> present & p ; !want -> absent | !p.   is_none_or: dual
                    pres = self.variant(frame, a0[1], None, {"+"}, None, bb) if a0[0] != "k" else TRUE
                    absent = self.variant(frame, a0[1], None, {"-"}, None, bb) if a0[0] != "k" else TRUE
                    if (quant == "any") == want:
                        return AND(pres, inner)
                    return OR([absent, AND(pres, inner)])
                if (quant == "any") == want:
                    return AND(inner, self.filters(frame, a0[1]) if a0[0] != "k" else TRUE)
                return self.ALL(self._within(self._excuse(inner, self.filters(frame, a0[1]) if a0[0] != "k" else TRUE), frame, bb),
                                self.text(an.operand(frame, a0)))
        for f in self.callee_frames(frame, bb):
            r = self.boolean(f, [0], want)
            if not many(r):
                return r
            return self.bexpr(self.opaque_call(frame, bb), want)
        return self.split(lambda: an.call(frame, bb), lambda e: self.bexpr(e, want))

    def ALL(self, f, over):
        if f == TRUE:
            return TRUE
        if f == FALSE:
            return self.b(True, f"empty({over})")
        return self.b(True, f"ALL {over}: [{fmt(f)}]")

    def _within(self, f, frame, bb):
        """f without what holds anyway where the call in bb is reached"""
        if f == TRUE or f == FALSE or ("within", id(frame), bb) in self.guard:
            return f
        self.guard.add(("within", id(frame), bb))
        try:
            g = self.full(frame, bb)
        finally:
            self.guard.discard(("within", id(frame), bb))
        if not g or many(g):
            return f
        known = frozenset.intersection(*g)
        return frozenset(c - known for c in f) if known else f

    @staticmethod
    def _excuse(g, F):
        return g if F == TRUE else OR([_without(g, F), NOT(F)])

    def callee_frames(self, frame, bb):
        """frames of the body a call runs, when that body is looked into"""
        an = self.an
        t = frame.fn.blocks[bb][1]
        c, args = t[1], t[2]
        if c.get("n") in CALLS and self._std(c) and args:
            an.call(frame, bb)
            out = []
            for e in an.operand(frame, args[0]):
                if e[0] == "closure":
                    for k, v in list(e[2].memo.items()):
                        if isinstance(k, tuple) and k[0] == "clos" and k[1] == e[1] and isinstance(v, Frame) \
                                and v.consumer == (frame, bb):
                            out.append(v)
            return out
        ti = an.should_inline(c, frame)
        if ti:
            return [an.sub(frame, bb, ti)]
        return []

    def closure_frames(self, frame, bb, argi):
        an = self.an
        args = frame.fn.blocks[bb][1][2]
        if argi >= len(args):
            return []
        rcv = an.operand(frame, args[0])
        val = frozenset(x for x in rcv if x[0] not in ("none", "residual")) or rcv
        V = lambda: an._some(an.operand(frame, args[0]))
        out = []
        for e in sorted(an.operand(frame, args[argi]), key=lambda e: e[0] + str(e[1:2])):
            if e[0] == "closure":
                n = frame.fn.blocks[bb][1][1].get("n")
                ps = [V, V]
                if n in ("fold", "try_fold"):
                    acc = an.operand(frame, args[1])
                    ps = [lambda: an.operand(frame, args[1]) | fs(("acc",)), V]
                elif n in ("then", "ok_or_else", "or_insert_with"):
                    ps = []
                cf = an.closure(e[2], e[1], e[4], ps, e[3] if e[3] is not None else bb,
                                (frame, bb), tag=("pred", id(frame), bb))
                if cf is not None:
                    out.append(("f", cf))
            elif e[0] == "fn":
                if e[1] in an.F and an._inl_id(e[1], e[2], frame):
                    an.stats["functions"].add(e[1])
                    key = ("predfn", bb, e[1])
                    if key not in frame.memo:
                        frame.memo[key] = Frame(an.P.fn(e[1]), [V, V], frame, bb, kind="fnarg")
                    out.append(("f", frame.memo[key]))
                else:
                    out.append(("n", e[2], val))
        return out

    def closure_bool(self, frame, bb, argi, want):
        out = []
        for x in self.closure_frames(frame, bb, argi):
            if x[0] == "f":
                out.append(self.boolean(x[1], [0], want))
            else:
                nm = x[1].rsplit("::", 1)[-1]
                if nm in ("is_some", "is_ok"):
                    out.append(self.opt(x[2], want))
                elif nm in ("is_none", "is_err"):
                    out.append(self.opt(x[2], not want))
                else:
                    out.append(self.bexpr(fs(("call", x[1], (x[2],))), want))
        return OR(out) if out else TRUE

    def closure_variant(self, frame, bb, argi, allowed):
        out = []
        for x in self.closure_frames(frame, bb, argi):
            if x[0] == "f":
                out.append(self.variant(x[1], [0], None, allowed, None, bb))
            else:
                nm = x[1].rsplit("::", 1)[-1]
                if nm in ("ok", "clone"):
                    out.append(self.opt(x[2], allowed == {"+"}))
                else:
                    out.append(self.opt(fs(("call", x[1], (x[2],))), allowed == {"+"}))
        return OR(out) if out else TRUE

    # ---------------------------------------------------------------- variants
    def variant(self, frame, pl, adt, allowed, names, at, seen=0):
        """value at place is one of `allowed` variants. '+' = Some/Ok/Continue, '-' = None/Err/Break"""
        fn = frame.fn
        allowed = frozenset(allowed)
        if adt is not None and is_std(adt) and adt.endswith("::Entry"):
            adt = OPTRES[0]
            allowed = frozenset({"Occupied": "Some", "Vacant": "None"}.get(v, v) for v in allowed)
        if adt in OPTRES or adt is None:
            if adt is not None and len(allowed) > 1:
                return TRUE
            allowed = frozenset("+" if allowed <= {"Some", "Ok", "Continue", "+"} else "-")
        if len(pl) == 1 or all(p == "*" for p in pl[1:]):
            l = pl[0]
            ds = fn.defs.get(l, []) if (l > fn.nargs or l == 0) else []
            if ds and seen < 16:
                key = ("var", id(frame), l, allowed)
                if key in self.guard:
                    return TRUE
                self.guard.add(key)
                try:
                    if len(ds) == 1:
                        return self._vardef(frame, ds[0], adt, allowed, names, seen)
                    alts = []
                    for d in ds:
                        a = self._vardef(frame, d, adt, allowed, names, seen)
                        if a == FALSE:
                            continue
                        alts.append(AND(a, self.block(frame, d[0])))
                    return OR(alts)
                finally:
                    self.guard.discard(key)
            if not ds and l <= fn.nargs and frame.args is not None and frame.kind == "call" and frame.site is not None \
                    and frame.parent is not None:
                ct = frame.parent.fn.blocks[frame.site][1]
                if ct[0] == "call" and l - 1 < len(ct[2]) and ct[2][l - 1][0] != "k" and len(ct[2]) == len(frame.args):
                    return self.variant(frame.parent, ct[2][l - 1][1], adt, allowed, names, at, seen + 1)
        if len(pl) > 1 and not all(p == "*" for p in pl[1:]):
            r = self._spread(frame, pl, lambda f, p: self.variant(f, p, adt, allowed, names, at, seen + 1),
                             lambda f, o: self.vatom(self.an.operand(f, o), adt, allowed, names), seen)
            if r is not None:
                return r
        return self.split(lambda: self.an.place(frame, pl), lambda e: self.vatom(e, adt, allowed, names))

    def vatom(self, e, adt, allowed, names):
        if allowed <= {"+", "-"}:
            return self.opt(e, allowed == {"+"})
        return self.is_(e, short(adt) if adt else "?", allowed, names)

    def _vardef(self, frame, d, adt, allowed, names, seen):
        bi, k, payload, _ = d
        an = self.an
        pn = allowed <= {"+", "-"}
        plus = allowed == {"+"}
        if k == "rv":
            rv = payload
            if rv[0] == "use" and rv[1][0] != "k":
                return self.variant(frame, rv[1][1], adt, allowed, names, bi, seen + 1)
            if rv[0] == "ref":
                return self.variant(frame, rv[2], adt, allowed, names, bi, seen + 1)
            if rv[0] == "agg" and rv[1] == "adt":
                v = rv[4]
                if pn:
                    return TRUE if (v in ("Some", "Ok", "Continue")) == plus else FALSE
                return TRUE if v in allowed else FALSE
            return self.split(lambda: an.rvalue(frame, rv, bi), lambda e: self.vatom(e, adt, allowed, names))
        t = payload
        c, args = t[1], t[2]
        n = c.get("n", "")
        std = self._std(c)
        dc = an.downcast(c) if pn and args and args[0][0] != "k" else None
        if dc:
            allv = frozenset(v["n"] for v in an.F.adts[dc[0]]["variants"])
            return self.variant(frame, args[0][1], dc[0], {dc[1]} if plus else allv - {dc[1]}, allv, bi, seen + 1)
        if n == "from_residual":
            return (FALSE if plus else TRUE) if pn else TRUE
        if "ctor" in c:
            v = c.get("ctorv")
            if pn and v in ("Some", "Ok", "Err", "Continue", "Break"):
                return TRUE if (v in ("Some", "Ok", "Continue")) == plus else FALSE
            if not pn:
                return TRUE if v in allowed else FALSE
        if n in CALLS and std:
            fr = self.callee_frames(frame, bi)
            if fr:
                return OR([self.variant(f, [0], adt, allowed, names, bi, seen + 1) for f in fr])
        elif std and args and args[0][0] != "k":
            a0 = args[0][1]
            V = lambda pl, al=allowed: self.variant(frame, pl, None, al, None, bi, seen + 1)
            if pn:
                if n in ("branch", "as_ref", "as_mut", "clone", "cloned", "copied", "ok_or", "ok", "as_deref", "as_deref_mut",
                         "deref", "borrow", "map", "map_err", "ok_or_else", "inspect", "transpose", "to_owned", "inspect_err",
                         "from_output", "take"):
                    return V(a0)
                if n == "err":
                    return V(a0, {"-"} if plus else {"+"})
                if n in ("then", "then_some"):
                    return self.boolean(frame, a0, plus)
                if n in ("next", "next_back", "peek") and self._iterlike(frame, a0):
                    return self.filters(frame, a0) if plus else TRUE
                if n in ("find", "position"):
                    b = self.closure_bool(frame, bi, 1, plus)
                    if plus:
                        return AND(b, self.filters(frame, a0))
                    return self.ALL(self._within(self._excuse(b, self.filters(frame, a0)), frame, bi), self.text(an.operand(frame, args[0])))
                if n == "filter":
                    if plus:
                        return AND(V(a0), self.closure_bool(frame, bi, 1, True))
                    return OR([V(a0), self.closure_bool(frame, bi, 1, False)])
                if n == "and_then":
                    if plus:
                        return AND(V(a0), self.closure_variant(frame, bi, 1, {"+"}))
                    return OR([V(a0), AND(V(a0, {"+"}), self.closure_variant(frame, bi, 1, {"-"}))])
                if n == "or_else" or n == "or":
                    return TRUE if plus else V(a0)
                if n == "find_map" and plus:
                    return AND(self.closure_variant(frame, bi, 1, {"+"}), self.filters(frame, a0))
                if n in ("try_for_each", "try_fold") and not plus:
                    return AND(self.filters(frame, a0), self.closure_variant(frame, bi, len(args) - 1, {"-"}))
            elif n in ("clone", "deref", "as_ref", "borrow", "to_owned"):
                return self.variant(frame, a0, adt, allowed, names, bi, seen + 1)
        for f in self.callee_frames(frame, bi):
            r = self.variant(f, [0], adt, allowed, names, bi, seen + 1)
            if not many(r):
                return r
            return self.vatom(self.opaque_call(frame, bi), adt, allowed, names)
        return self.split(lambda: an.call(frame, bi), lambda e: self.vatom(e, adt, allowed, names))

    def opaque_call(self, frame, bb):
        t = frame.fn.blocks[bb][1]
        return fs(("call", callee_name(t[1]), tuple(self.an.operand(frame, a) for a in t[2])))

    def _iterlike(self, frame, pl):
        return True

    def filters(self, frame, pl, seen=0):
        """conditions imposed on elements by the adaptors of the iterator chain ending at place"""
        fn = frame.fn
        if seen > 16:
            return TRUE
        l = pl[0]
        ds = fn.defs.get(l, [])
        pushes = self._pushes(frame, l)
        if pushes:
            return OR([self.block(frame, b) for b in pushes])
        if len(ds) > 1:
            return OR([self._filtdef(frame, d, seen) for d in ds]) if len(ds) <= 4 else TRUE
        for d in ds:
            return self._filtdef(frame, d, seen)
        return TRUE

    def _pushes(self, frame, l):
        """blocks that add single elements to a collection started empty in this function"""
        fn = frame.fn
        key = ("P", l)
        if key in frame.nec:
            return frame.nec[key]
        out = []
        if l > fn.nargs and fn.mutrefs.get(l) and all(
                k == "call" and p[1].get("n") in ("new", "default", "with_capacity") and self._std(p[1])
                for _, k, p, _ in fn.defs.get(l, ())):
            for (t, proj) in fn.mutrefs[l]:
                if any(not isinstance(p, str) for p in proj):
                    continue
                for (bi, ai) in fn.call_uses.get(t, ()):
                    c = fn.blocks[bi][1][1]
                    if ai == 0 and self._std(c):
                        if c.get("n") in ("push", "push_back", "insert", "push_front"):
                            out.append(bi)
                        elif c.get("n") in AN.COLLECT_MUT:
                            out = [None]
                            break
                if out == [None]:
                    out = []
                    break
        frame.nec[key] = out
        return out

    def _optclosure(self, frame, bb):
        fr = self.closure_frames(frame, bb, 1)
        return bool(fr) and all(x[0] == "f" and x[1].fn.locals[0][0].startswith(("core::option::Option<", "core::result::Result<"))
                                for x in fr)

    def _filtdef(self, frame, d, seen):
        bi, k, payload, _ = d
        if k == "rv":
            rv = payload
            if rv[0] == "use" and rv[1][0] != "k":
                return self.filters(frame, rv[1][1], seen + 1)
            if rv[0] == "ref":
                return self.filters(frame, rv[2], seen + 1)
            return TRUE
        t = payload
        c, args = t[1], t[2]
        n = c.get("n", "")
        out = TRUE
        if self._std(c) and n not in CALLS:
            if not args or args[0][0] == "k":
                return TRUE
            out = self.filters(frame, args[0][1], seen + 1)
            if n in ("filter", "take_while", "retain", "find", "filter_ok"):
                out = AND(out, self.closure_bool(frame, bi, 1, True))
            elif n in ("filter_map", "map_while", "find_map"):
                out = AND(out, self.closure_variant(frame, bi, 1, {"+"}))
            elif n == "successors":
                out = AND(out, self.variant(frame, args[0][1], None, {"+"}, None, bi))
            elif n == "skip_while":
                out = AND(out, self.b(True, "skip_while"))
            elif n == "flat_map":
                if self._optclosure(frame, bi):
                    out = AND(out, self.closure_variant(frame, bi, 1, {"+"}))
            elif n == "flatten":
                dd = fn_defs(frame, args[0][1])
                if len(dd) == 1 and dd[0][1] == "call" and dd[0][2][1].get("n") == "map" and self._optclosure(frame, dd[0][0]):
                    out = AND(out, self.closure_variant(frame, dd[0][0], 1, {"+"}))
            elif n in ("skip", "take", "step_by") and len(args) > 1:
                out = AND(out, self.b(True, f"{n}({self.text(self.an.operand(frame, args[1]))})"))
            elif n in ("chain", "zip") and len(args) > 1 and args[1][0] != "k":
                o2 = self.filters(frame, args[1][1], seen + 1)
                out = OR([out, o2]) if n == "chain" else AND(out, o2)
            return out
        for f in self.callee_frames(frame, bi):
            return self.filters(f, [0], seen + 1)
        return out

    # ---------------------------------------------------------------- whole-program
    def full(self, frame, bb):
        """condition of reaching bb, from the root function on"""
        key = ("F", bb)
        if key in frame.nec:
            return frame.nec[key]
        out = self.block(frame, bb)
        f = frame
        while f.parent is not None and f.kind != "promoted":
            if f.kind == "closure":
                if f.consumer is not None:
                    cf, cb = f.consumer
                    out = AND(self.full(cf, cb), self.consumer(cf, cb), out)
                    break
                out = AND(self.full(f.parent, f.site) if f.site is not None else TRUE, out)
                break
            if f.site is not None:
                if f.kind == "fnarg":
                    out = AND(self.consumer(f.parent, f.site), out)
                out = AND(self.full(f.parent, f.site), out)
                break
            f = f.parent
        frame.nec[key] = out
        return out

    def consumer(self, frame, bb):
        """what the std function that runs a closure implies"""
        t = frame.fn.blocks[bb][1]
        c, args = t[1], t[2]
        n = c.get("n", "")
        if not args or args[0][0] == "k" or not self._std(c):
            return TRUE
        a0 = args[0][1]
        ty = frame.fn.locals[a0[0]][0].lstrip("&").replace("mut ", "")
        optlike = ty.startswith(("core::option::Option", "core::result::Result"))
        if n in ("ok_or_else", "unwrap_or_else", "or_else", "map_err", "inspect_err", "get_or_insert_with"):
            return self.variant(frame, a0, None, {"-"}, None, bb) if optlike else TRUE
        if n == "then":
            return self.boolean(frame, a0, True)
        if n in CALLS:
            return TRUE
        if optlike and n in ("map", "and_then", "is_some_and", "is_ok_and", "filter", "inspect", "map_or", "is_none_or"):
            return self.variant(frame, a0, None, {"+"}, None, bb)
        if not optlike:
            return self.filters(frame, a0)
        return TRUE

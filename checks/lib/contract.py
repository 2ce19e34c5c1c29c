"""Behavioural contracts: the semantic summary of every covered function of the
reviewed tree is the reference; a function of the current tree conforms when its
summary is the same, or becomes the same once private helpers are looked into on
both sides (so that moving code between private helpers is not a difference)."""
import json, os, re, signal, time
from . import facts
from .summ import *
from . import an as AN
from . import profile as PR

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
REF = os.path.join(SPEC, "reference")


SLOW = 420     # seconds for all looking-into of one run


class OutOfTime(Exception):
    pass


class Deadline:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        if self.s <= 0.05:
            raise OutOfTime
        signal.signal(signal.SIGALRM, self.ring)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def ring(self, *a):
        raise OutOfTime

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


def last_seg(i):
    return i.rsplit("::", 1)[-1]


def renamed(ref, cur):
    """reference id -> id of the function that took its place (same name, moved elsewhere)"""
    gone, new = {}, {}
    for i in ref.ids():
        if i not in cur and "{closure#" not in i:
            gone.setdefault(last_seg(i), []).append(i)
    for i in cur.ids():
        if i not in ref and "{closure#" not in i and last_seg(i) in gone:
            new.setdefault(last_seg(i), []).append(i)
    out = {}
    for n, cs in new.items():
        pairs = sorted(((-len(os.path.commonprefix([a, b])), -len(os.path.commonprefix([a[::-1], b[::-1]])), a, b)
                        for a in gone[n] for b in cs))
        used = set()
        for _, _, a, b in pairs:
            if a in out or b in used:
                continue
            ra, rb = ref.get(a), cur.get(b)
            if ra.get("kind") in ("const", "static") != (rb.get("kind") in ("const", "static")) or ra["crate"] != rb["crate"]:
                continue
            out[a] = b
            used.add(b)
    return out


TINY_STD = set("""is_some is_none is_ok is_err ok as_ref as_deref deref clone copied cloned as_str try_into borrow as_slice not
eq ne len is_empty""".split())


def tiny_fns(F):
    """accessors and predicates: they only project and look at variants.  They are looked into
    everywhere, so that `x.is_dfg()`, `x.as_dfg().is_some()` and a match on x are one thing"""
    memo = {}

    def tiny(i, d=0):
        if i in memo:
            return memo[i]
        memo[i] = False
        memo[i] = r = look(i, d)
        return r

    def look(i, d):
        r = F.get(i)
        m = (r or {}).get("mir")
        if not m or d > 3 or "tr" in r or r.get("in_trait") or "{closure" in i or r.get("kind") in ("const", "static"):
            return False
        n = m["nargs"]
        if not 1 <= n <= 2 or len(m["blocks"]) > 14:
            return False
        tys = [x[0] for x in m["locals"]]
        if any(t.startswith("&mut") or t.startswith("*") for t in tys) or tys[0] in ("()", "!"):
            return False
        for bi, b in enumerate(m["blocks"]):
            if not b:
                continue
            for st in b[0]:
                rv = st[1]
                if len(st[0]) > 1 or rv[0] not in ("use", "ref", "discr", "agg", "bin", "un", "copyref", "cast"):
                    return False
                if rv[0] == "agg" and (rv[1] != "adt" or not str(rv[3]).startswith("core::")):
                    return False
                if rv[0] == "ref" and rv[1] != "shr":
                    return False
                if rv[0] in ("bin", "cast"):
                    return False
            t = b[1]
            if t[0] == "call":
                c = t[1]
                if c.get("n") in TINY_STD and (AN.is_std(c["p"]) or AN.is_std(c.get("tr", ""))):
                    continue
                k = c.get("r") or c["p"]
                if k in F and k != i and tiny(k, d + 1):
                    continue
                return False
            if t[0] not in ("goto", "ret", "switch", "unreachable", "drop", "unr"):
                return False
        return True

    return frozenset(i for i in F.ids() if tiny(i))


class Side:
    """One tree (reference or current) with its summaries."""

    def __init__(self, F, vocab, alias=None, tiny=frozenset()):
        self.F = F
        self.alias = alias or {}
        self.tiny = tiny | frozenset(self.alias[x] for x in tiny if x in self.alias)
        self.vocab = vocab | frozenset(self.alias.values())
        self.back = {v: k for k, v in self.alias.items()}
        self.unchanged = None    # reference id -> bool
        self.settled = None      # reference id -> bool, the private functions it reaches included
        self.cache = {}
        self._rev = None

    def has(self, i):
        i = self.alias.get(i, i)
        return i in self.F and "mir" in (self.F.get(i) or {})

    def summary(self, i, deep=False):
        i = self.alias.get(i, i)
        k = (i, deep)
        if k not in self.cache:
            try:
                self.cache[k] = Summary(self.F, i, policy=self.policy(int(deep)), vocab=self.vocab)
            except RecursionError:
                self.cache[k] = None
        return self.cache[k]

    def policy(self, tier):
        """which callees stay opaque; unchanged private functions do, up to the last tier"""
        tiny = self.tiny
        if tier not in (1, 2) or self.settled is None:
            base = POLICIES[min(tier, 2) if tier < 3 else 1]
            return lambda an, t, rec: t not in tiny and base(an, t, rec)
        base = POLICIES[tier]

        def pol(an, t, rec):
            return t not in tiny and (base(an, t, rec) or (t in an.vocab and self.settled(self.back.get(t, t))))
        return pol

    def lines(self, i, deep=False):
        s = self.summary(i, deep)
        if s is None:
            return None
        return {(k, n, a): (f, w) for k, n, a, f, w in s.out()}

    def callees(self, i):
        self.callers(i)
        return self._fwd.get(i, ())

    def callers(self, i):
        if self._rev is None:
            rev = {}
            self._fwd = fwd = {}
            for j in self.F.ids():
                r = self.F.get(j)
                for m in [r.get("mir")] + list((r.get("prom") or {}).values() if isinstance(r.get("prom"), dict) else r.get("prom") or []):
                    if not m:
                        continue
                    for c in mir_refs(m):
                        for key in ("r", "p"):
                            if key in c:
                                rev.setdefault(c[key], set()).add(base_id(j))
                                fwd.setdefault(base_id(j), set()).add(base_id(c[key]))
            self._rev = rev
        return self._rev.get(i, set())


def base_id(j):
    return j.split("::{closure#")[0].split("::promoted[")[0]


def mir_refs(o):
    """every callee / function reference in a body"""
    st = [o]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "p" in x and "n" in x:
                yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def unit_policy(an, t, rec):
    return t in an.vocab


def deep_policy(an, t, rec):
    if t not in an.vocab:
        return False
    if "tr" in rec or rec.get("in_trait"):
        return True
    return bool(rec.get("eff_pub"))


def small_policy(an, t, rec):
    """also looks into straight-line functions"""
    m = rec.get("mir")
    if m and len(m["blocks"]) <= 4 and not any(b and b[1][0] == "switch" for b in m["blocks"]):
        return False
    return deep_policy(an, t, rec)


POLICIES = [unit_policy, deep_policy, small_policy]


def ref_facts():
    return facts.Facts(src=REF)


class Conformance:
    def __init__(self, cur=None, ref=None):
        self.rF = ref or ref_facts()
        self.cF = cur or facts.Facts()
        vocab = frozenset(self.rF.ids())
        tiny = tiny_fns(self.rF)
        self.r = Side(self.rF, vocab, tiny=tiny)
        self.c = Side(self.cF, vocab, renamed(self.rF, self.cF), tiny=tiny)
        self.n = 0
        self.nlines = 0
        self.deep = []
        self.samples = []
        self.verdict = {}
        self.unit = {}
        self.prof = {}
        self.left = []
        self.slow = SLOW
        self.stable = {}
        self.r.unchanged = self.c.unchanged = self.unchanged
        self.r.settled = self.c.settled = self.settled

    def unchanged(self, i):
        """the function itself, its callees left opaque, is the same on both sides"""
        if i not in self.unit:
            self.unit[i] = False
            if self.r.has(i) and self.c.has(i):
                self.unit[i] = bool(self.same(i, 0)[0])
        return self.unit[i]

    def settled(self, i):
        """unchanged, and so are the private functions a look into it would look into"""
        if i not in self.stable:
            seen, st, ok = {i}, [i], True
            while st and ok:
                x = st.pop()
                if self.stable.get(x) is True:
                    continue
                ok = self.stable.get(x, True) and self.unchanged(x)
                for y in self.r.callees(x):
                    if y not in seen and self.r.has(y) and self.private(y):
                        seen.add(y)
                        st.append(y)
            self.stable[i] = ok
            if ok:
                self.stable.update((x, True) for x in seen)
        return self.stable[i]

    def timed(self, i, tier, limit):
        t0 = time.time()
        try:
            with Deadline(limit):
                return self.same(i, tier)
        except OutOfTime:
            return None, []
        finally:
            self.slow -= time.time() - t0

    def same(self, i, deep):
        a, b = self.r.lines(i, deep), self.c.lines(i, deep)
        if a is None or b is None:
            return None, []
        self.nlines += len(a)
        d = diff(a, b)
        if not d:
            d = self.sequence(self.r.summary(i, deep), self.c.summary(i, deep))
        return not d, d

    def sequence(self, a, b):
        """things that happen in the opposite order, and lists with their elements permuted"""
        out = []
        oa, ob = a.order(), b.order()
        self.nlines += len(oa) + len(a.arrays)
        for x, y in sorted(oa):
            if (y, x) in ob and (x, y) not in ob:
                out.append(("+", f"{y} comes before {x}", "", ""))
        self.nlines += len(a.picks)
        out += [("-", f"{how} of {x}", "", "") for how, x in sorted(a.picks - b.picks)]
        out += [("+", f"{how} of {x}", "", "") for how, x in sorted(b.picks - a.picks)]
        if a.arrays != b.arrays:
            gone, new = a.arrays - b.arrays, b.arrays - a.arrays
            for g in sorted(gone):
                for n in sorted(new):
                    if len(g) == len(n) and set(g) == set(n):
                        out.append(("+", f"[{', '.join(n)}] instead of [{', '.join(g)}]", "", ""))
        return out

    def private(self, i):
        r = self.rF.get(i)
        return not ("tr" in r or r.get("in_trait") or r.get("eff_pub"))

    def check(self, i):
        """-> None when the function conforms, else a list of differences"""
        if i in self.verdict:
            return self.verdict[i]
        self.verdict[i] = None       # assume while walking callers
        self.verdict[i] = v = self._check(i, 0)
        return v

    def about(self, side, i):
        """the profile of a function, code that moved out of it or into it included"""
        k = (side is self.c, i)
        if k not in self.prof:
            def look(x):
                b = base_id(x)
                if b in side.tiny:
                    return True
                if side is self.c:
                    return b not in self.rF and b not in side.back
                return not self.c.has(b) and self.private(b)
            self.prof[k] = PR.profile(side.F, side.alias.get(i, i), look)
        return self.prof[k]

    def reworked(self, i):
        """the plumbing was replaced by other plumbing, what it holds together was not: the
        summaries of two ways to write a thing need not be comparable, so nothing is said"""
        if not self.c.has(i):
            return False
        a, b = self.about(self.r, i), self.about(self.c, i)
        if a.own == b.own and a.rewritten(b):
            self.left.append(i)
            return True
        return False

    def _check(self, i, d):
        self.n += 1
        if not self.r.has(i):
            return None
        gone = not self.c.has(i)
        df = []
        if not gone:
            ok, df = self.same(i, 0)
            self.unit[i] = bool(ok)
            if ok:
                return None
            self.deep.append(i)
            df2 = []
            # looking into private functions can only help where they changed, or others are called
            for tier, limit in ((1, 60), (2, 30), (3, 15)) if self.moved(i) else ():
                ok, d2 = self.timed(i, tier, min(limit, self.slow))
                if ok:
                    return None
                if tier == 1:
                    df2 = d2
            df = min((x for x in (df, df2) if x), key=len, default=df)
            if self.reworked(i):
                return None
        if self.private(i) and (gone or self.signature(self.r, i) != self.signature(self.c, i)):
            # a private helper is judged by what its users do
            users = self.users(i)
            if users:
                bad = []
                for u in sorted(users):
                    if not self.c.has(u):
                        continue
                    ok, du = self.timed(u, 1, min(60, self.slow))
                    if not ok:
                        for tier in (2, 3):
                            if self.timed(u, tier, min(20, self.slow))[0]:
                                ok = True
                                break
                    if ok is False and not self.reworked(u):
                        bad = [("in caller " + u,) + x for x in du]
                        break
                    if ok is None:
                        bad = [("in caller " + u, "-", "analysis gave up", "")]
                if not bad:
                    return None
                return df or bad
        if gone and self.private(i) and self.rF.get(i).get("kind") in ("const", "static"):
            return None      # its value is compared where it is used
        if gone:
            return [("-", "function is missing", "", "")]
        return df

    def moved(self, i):
        """may code have moved between the function and private functions it reaches?"""
        a = {x for x in self.r.callees(i) if self.r.has(x) and self.private(x)}
        b = {self.c.back.get(x, x) for x in self.c.callees(self.c.alias.get(i, i))}
        b = {x for x in b if self.r.has(x) and self.private(x)}
        return a != b or not all(self.settled(x) for x in a if x != i)

    @staticmethod
    def signature(side, i):
        i = side.alias.get(i, i)
        m = (side.F.get(i) or {}).get("mir") or {}
        return json.dumps([x[0] for x in m.get("locals", [])[:1 + m.get("nargs", m.get("args", 0))]])

    def users(self, i, seen=None, d=0):
        """nearest non-private transitive callers in the reference"""
        seen = seen if seen is not None else set()
        out = set()
        for u in self.r.callers(i):
            if u in seen or u == i or not self.r.has(u):
                continue
            seen.add(u)
            if self.private(u) and d < 6:
                up = self.users(u, seen, d + 1)
                out |= up or {u}
            else:
                out.add(u)
        return out


# constructs that say how something is counted or collected rather than what is done
SOFT = re.compile(r"\brec\b|\bidx\(|\bcount\(|\benum\(|\bzip\(|many alternatives|\blen\(|\bacc\b|ALL |empty\(|Vacant|Occupied|\bany\(|\ball\(|\bfold|nth\(|\brange\b|Range\(")


def soft_kinds(m, keys):
    out = set()
    for k in keys:
        for t in k[2]:
            out |= set(SOFT.findall(t))
        for c in m[k][0]:
            for x in c:
                out |= set(SOFT.findall(x[2] if x[0] == "b" else x[1]))
    return out


def soften(m, kinds):
    """the same lines without what mentions the given constructs"""
    hit = lambda t: any(k in kinds for k in SOFT.findall(t))
    out = {}
    for k, (f, w) in m.items():
        k2 = (k[0], k[1], tuple("~" if hit(t) else t for t in k[2]))
        if k[0] in ("ret", "sel", "try", "set") and hit(k[1]):
            k2 = (k[0], "~", k2[2])
        g = frozenset(frozenset(x for x in c if not hit(x[2] if x[0] == "b" else x[1])) for c in f)
        g = simp(g) if g else g
        if k2 in out:
            out[k2] = (OR([out[k2][0], g]), w)
        else:
            out[k2] = (g, w)
    return out


def diff(a, b):
    d, ka, kb = diff0(a, b)
    if not d:
        return d
    delta = soft_kinds(a, ka) ^ soft_kinds(b, kb)
    if delta:
        # counted or iterated in another way: compare the rest
        d2, _, _ = diff0(soften(a, delta), soften(b, delta))
        if d2:
            delta = soft_kinds(a, ka) | soft_kinds(b, kb)
            d2, _, _ = diff0(soften(a, delta), soften(b, delta))
        return d2
    return d


def diff0(a, b):
    out, ka, kb = [], [], []
    for k in sorted(set(a) | set(b)):
        if k not in b:
            ka.append(k)
            out.append(("-", line(k), fmt(a[k][0]), a[k][1]))
        elif k not in a:
            kb.append(k)
            out.append(("+", line(k), fmt(b[k][0]), b[k][1]))
        elif not equivalent(a[k][0], b[k][0]):
            ka.append(k)
            kb.append(k)
            out.append(("-", line(k), fmt(a[k][0]), a[k][1]))
            out.append(("+", line(k), fmt(b[k][0]), b[k][1]))
    return out, ka, kb


def line(k):
    return f"{k[0]} {k[1]}({', '.join(k[2])})"

"""P09: no result depends on the iteration order of an unordered collection, on
addresses, time or randomness.

Every place where the order of a std HashMap or HashSet (random state) is
observed is found from the types in the MIR.  A place passes when what consumes
the order cannot see it: it is collected into a map or set, sorted, or reduced by
an operation that does not depend on the order.  The remaining places have been
reviewed and are listed below by the collection they iterate; a place that is not
listed is a violation."""
import re
from lib.report import Anchor

COLL = re.compile(r"std::collections::hash::(?:map::HashMap|set::HashSet)<")
RAWIT = re.compile(r"std::collections::hash::(?:map|set)::(?:Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Drain|"
                   r"Difference|Union|Intersection|SymmetricDifference|ExtractIf)\b")
ADAPT = re.compile(r"(?:core::iter::(?:adapters|sources)|itertools)::")
ITER = set("iter iter_mut keys values values_mut into_keys into_values drain into_iter difference union intersection "
           "symmetric_difference extract_if".split())
# consumers that cannot see the order
BLIND = set("any all count len is_empty min max sum product contains contains_key exactly_one at_most_one all_unique size_hint "
            "all_equal is_disjoint is_subset is_superset counts".split())
SORTS = {"sorted", "sort"} | {a + b for a in ("sorted_", "sort_") for b in
                              ("by", "by_key", "unstable", "unstable_by", "unstable_by_key", "by_cached_key")}
# what a collection of the elements must be for the order to be lost again
UNORDERED = re.compile(r"^(?:&mut )?(?:core::result::Result<|core::option::Option<|\()*(?:alloc::sync::Arc<|alloc::boxed::Box<)?"
                       r"(?:std::collections::hash::(?:map::HashMap|set::HashSet)|alloc::collections::btree::(?:map::BTreeMap|set::BTreeSet)|"
                       r"alloc::collections::binary_heap::BinaryHeap)<")
PLUMB = set("into_iter iter by_ref map filter filter_map flat_map cloned copied chain inspect peekable fuse next size_hint flatten "
            "unique unique_by map_while into collect_x filter_ok map_ok deref as_ref borrow clone zip enumerate rev skip take "
            "step_by map_into drop".split())

SHOWN = set("serialize serialize_field serialize_value serialize_entry serialize_newtype_struct serialize_element to_value to_string to_vec "
            "to_writer to_string_pretty fmt hash".split())

# (file, what is iterated) -> (number of reviewed places, why the order does not reach a result)
REVIEWED = {
    ("hugr-core/src/extension/declarative/ops.rs", "SmolStr, ParamDeclaration"): (1, "declaration files are only read by hugr"),
    ("hugr-core/src/extension/declarative/ops.rs", "String, Value"): (
        2, "declaration files are only read by hugr; misc entries go into a map"),
    ("hugr-core/src/hugr/hugrmut.rs", "H as HugrInternals>::Node, Node"): (
        1, "per inserted node: optype and metadata are set, and roots are attached in the order of their own map"),
    ("hugr-core/src/hugr/hugrmut.rs", "Node, Node"): (1, "as above"),
    ("hugr-core/src/hugr/hugrmut.rs", "NodeIndex, NodeIndex"): (1, "pairs for building the node map"),
    ("hugr-core/src/hugr/internal.rs", "N, Node"): (1, "inverse lookup in an injective map"),
    ("hugr-core/src/hugr/linking.rs", "H as HugrInternals>::Node, NodeLinkingDirective<<Self as HugrInternals>::Node"): (
        1, "into an ordered map of roots"),
    ("hugr-core/src/hugr/linking.rs", "Node, NodeLinkingDirective<<Self as HugrInternals>::Node"): (
        1, "into an ordered map of roots"),
    ("hugr-core/src/hugr/patch/replace.rs", "Node, HostNode"): (
        3, "which of several errors is reported; a list of nodes that is only compared as a set; disjoint transfers of children"),
    ("hugr-core/src/hugr/views/root_checked/dfg.rs", "usize, usize"): (1, "which of several errors is reported"),
    ("hugr-passes/src/const_fold.rs", "IncomingPort, Value"): (1, "joined into a lattice"),
    ("hugr-passes/src/const_fold.rs", "Node, <IncomingPort, Value"): (2, "joined into a lattice; entry points kept as a set"),
    ("hugr-passes/src/dataflow/datalog.rs", "H as HugrInternals>::Node, Vec<(IncomingPort, PartialValue<V, <H as HugrInternals>::Node>)"): (
        1, "facts for a fixpoint"),
    ("hugr-passes/src/dataflow/partial_value.rs", "usize, Vec<PartialValue<V, N"): (6, "per variant; debug output"),
    ("hugr-passes/src/nest_cfgs.rs", "(T, T), usize"): (1, "into sets"),
    ("hugr-passes/src/nest_cfgs.rs", "Node"): (1, "kept as a set"),
    ("hugr-persistent/src/persistent_hugr.rs", "Node, Node"): (1, "into a map"),
    ("hugr-persistent/src/persistent_hugr.rs", "Node, OpType"): (1, "removals from a map"),
    ("hugr-persistent/src/persistent_hugr.rs", "NodeId, BTreeSet<Node"): (1, "which of several errors is reported"),
    ("hugr-persistent/src/persistent_hugr.rs", "PatchNode, Node"): (1, "inverse lookup in an injective map"),
}
# sources of values that differ from run to run
BANNED = re.compile(r"std::time::(?:SystemTime|Instant)>?::now|std::process::id|std::thread::(?:current|spawn)|\brand(?:_core|_chacha)?::|"
                    r"\bfastrand::|\bgetrandom::|\buuid::|std::hash::random::RandomState|core::hash::BuildHasher::hash_one|"
                    r"Argument<'_>>::new_pointer|core::ptr::hash|<\*(?:const|mut) T as core::hash|\brayon::|std::env::var|chrono::")
# where one is used without reaching a result
BANNED_OK = re.compile(r"hugr_passes::dataflow::datalog::run_datalog\b")     # ascent records how long each stratum took


def refd(t):
    while t.startswith(("&mut ", "&")):
        t = t[5:] if t.startswith("&mut ") else re.sub(r"^&(?:'\w+ )?", "", t)
        t = re.sub(r"^'\w+ ", "", t)
    return t


def source(t):
    """the unordered collection (or raw iterator over one) whose order an iterator type has, or None"""
    t = refd(t)
    if RAWIT.match(t):
        return t
    if not ADAPT.match(t):
        return None
    for g in generics(t):
        g = refd(g)
        if COLL.match(g):
            return g
        if RAWIT.match(g) or ADAPT.match(g):
            r = source(g)
            if r:
                return r
    return None


def hashy(t):
    """the type of something whose order is that of an unordered collection"""
    return source(t) is not None


def element(t):
    """text naming the collection that is iterated, without lifetimes and allocators"""
    s = source(t) or t[COLL.search(t).start():]
    d, k = 0, len(s)
    for j, c in enumerate(s):
        if c == "<":
            d += 1
        elif c == ">" and s[j - 1] != "-":
            d -= 1
            if d == 0:
                k = j + 1
                break
    return s[:k]


def norm(t):
    t = re.sub(r"'\w+(?:, )?", "", t)
    t = re.sub(r", (?:std::hash::random::RandomState|alloc::alloc::Global)", "", t)
    t = re.sub(r"std::collections::hash::(?:map|set)::\w+", "", t)
    t = re.sub(r"\b[a-z_0-9]+::", "", t)
    return t.replace("<>", "").strip("<> ")


def optype(f, o):
    if o[0] == "k":
        return ""
    if len(o[1]) == 1:
        return f["mir"]["locals"][o[1][0]][0]
    return ""


def generics(t):
    """top-level generic arguments of a type"""
    k = t.find("<")
    if k < 0:
        return []
    out, d, cur = [], 0, ""
    for j in range(k + 1, len(t)):
        c = t[j]
        if c in "<([{":
            d += 1
        elif c in ")]}" or c == ">" and t[j - 1] != "-":
            d -= 1
            if d < 0:
                break
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return [x for x in out if not x.startswith("'")]


def kv(t):
    """key (and value) types of a collection or of an iterator over one"""
    g = generics(t)
    isset = "set::" in t[:40]
    return tuple(norm(refd(x)) for x in g[:1 if isset or "Keys" in t[:60] else 2])


def fixed(t):
    """a collection type with a hasher that is the same in every run"""
    g = generics(t)
    return len(g) > (1 if "set::" in t[:40] else 2) and bool(re.search("FxBuildHasher|FxHasher|BuildHasherDefault", g[-1]))


class Sites:
    def __init__(self, cur):
        self.cur = cur
        self.seen = {}         # function -> key types -> whether a collection of it there has a random hasher
        self.all = 0
        self.blind = 0
        self.fixed = 0
        self.open = {}      # (file, element) -> [(function, line, how)]
        self.funcs = 0

    def file(self, f):
        return f.get("span", "?").split(":")[0]

    def hashers(self, f, el):
        """hashers of the collections with these keys that appear in a function"""
        k = f["id"]
        if k not in self.seen:
            m = self.seen[k] = {}
            for l in f["mir"]["locals"]:
                for x in COLL.finditer(l[0]):
                    e = element(l[0][x.start():])
                    m.setdefault(kv(e)[:1], set()).add(not fixed(e))
        return self.seen[k].get(kv(el)[:1])

    def random(self, f, el):
        """may the order differ from run to run?  Not with a fixed hasher"""
        if COLL.match(el):
            return not fixed(el)
        return True in (self.hashers(f, el) or {True})

    def add(self, i, f, line, el, how):
        if not self.random(f, el):
            self.fixed += 1
            return
        i = i.split("::{closure#")[0]
        self.open.setdefault((self.file(f), norm(el)), []).append((i, line, how))

    def function(self, i, f):
        m = f["mir"]
        if not any(COLL.search(l[0]) or RAWIT.search(l[0]) for l in m["locals"]):
            return
        self.funcs += 1
        L = m["locals"]
        sorted_later = set()
        for b in m["blocks"]:
            if b and b[1][0] == "call" and b[1][1].get("n") in SORTS and b[1][2] and b[1][2][0][0] != "k":
                sorted_later |= self.back(m, b[1][2][0][1][0])
        for b in m["blocks"]:
            if not b:
                continue
            t = b[1]
            if t[0] == "call":
                self.call(i, f, L, t, sorted_later)
            for s in b[0]:
                rv = s[1]
                if rv[0] == "agg" and rv[1] in ("adt", "tuple", "array"):
                    for o in rv[2]:
                        ty = optype(f, o)
                        if ty and hashy(ty) and rv[1] != "closure":
                            self.all += 1
                            self.add(i, f, s[2], element(ty), "stored")
                elif rv[0] == "cast" and rv[2][0] != "k":
                    ty = optype(f, rv[2])
                    if ty and hashy(ty.replace("alloc::boxed::Box<", "")) and "dyn" in str(rv):
                        self.all += 1
                        self.add(i, f, s[2], element(ty), "iterator handed on")
        rt = L[0][0]
        if hashy(rt):
            self.all += 1
            self.add(i, f, f.get("span", "?:0").split(":")[1], element(rt), "iterator returned")

    @staticmethod
    def back(m, l, d=0):
        """locals a reference or slice is taken from"""
        out, st = set(), [l]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            for b in m["blocks"]:
                if not b:
                    continue
                for s in b[0]:
                    if s[0] == [x]:
                        rv = s[1]
                        if rv[0] == "ref":
                            st.append(rv[2][0])
                        elif rv[0] == "use" and rv[1][0] != "k":
                            st.append(rv[1][1][0])
                        elif rv[0] == "cast" and rv[2][0] != "k":
                            st.append(rv[2][1][0])
                t = b[1]
                if t[0] == "call" and t[3] == [x] and t[2] and t[2][0][0] != "k" and t[1].get("n") in (
                        "deref", "deref_mut", "as_mut_slice", "unwrap", "expect", "into_iter", "borrow_mut", "branch"):
                    st.append(t[2][0][1][0])
        return out

    def call(self, i, f, L, t, sorted_later):
        c, args, dest, line = t[1], t[2], t[3], t[5]
        n = c.get("n", "")
        std = c["p"].startswith(("core::", "alloc::", "std::", "<core::", "<alloc::", "<std::", "itertools::", "<itertools::", "<&",
                                 "<[", "<T ")) or c.get("tr", "").startswith(("core::", "alloc::", "std::", "itertools::"))
        dty = L[dest[0]][0] if len(dest) == 1 else "?"
        for k, o in enumerate(args):
            ty = optype(f, o)
            if not ty:
                continue
            it = hashy(ty)
            coll = not it and COLL.match(refd(ty))
            if not it and not coll:
                continue
            if coll and (n in SHOWN or c["p"].startswith("core::fmt::rt::Argument")):
                self.all += 1
                self.add(i, f, line, refd(ty), "written out")
                continue
            if coll:
                if k == 0 and std and (n in ITER or n not in ("extend", "from_iter", "chain", "zip", "collect")):
                    continue     # a lookup or an update, or the start of an iteration that is judged where it ends
                if k == 0 and n == "extend":
                    continue
                if not std:
                    if not self.generic_param(c, k):
                        continue
            el = element(refd(ty)) if not coll else refd(ty)
            self.all += 1
            if n in BLIND and k == 0 or n in SORTS:
                self.blind += 1
            elif n in ("collect", "try_collect", "from_iter", "collect_vec", "partition", "unzip", "collect_into", "extend",
                       "extend_one", "into_boxed_slice", "dedup"):
                to = dty if n != "extend" else optype(f, args[0])
                if UNORDERED.match(refd(to)):
                    self.blind += 1
                elif len(dest) == 1 and n != "extend" and dest[0] in sorted_later:
                    self.blind += 1
                elif n == "extend" and args[0][0] != "k" and self.back(f["mir"], args[0][1][0]) & sorted_later:
                    self.blind += 1
                else:
                    self.add(i, f, line, el, f"{n} into {short(refd(to))}")
            elif std and n in PLUMB and n != "next":
                if hashy(dty):
                    self.all -= 1       # still an iterator: judged where it is consumed
                elif n in ("drop", "size_hint", "deref", "as_ref", "borrow"):
                    self.blind += 1
                elif n == "into_iter":
                    self.all -= 1
                else:
                    self.add(i, f, line, el, n)
            elif n == "drop_in_place" or c["p"].endswith("::drop"):
                self.all -= 1
            elif std:
                self.add(i, f, line, el, "loop" if n == "next" else n)
            else:
                self.add(i, f, line, el, "passed to " + (n or "a function"))

    def generic_param(self, c, k):
        """does the called function take this argument as something to iterate over?"""
        r = self.cur.get(c.get("r") or c["p"]) or self.cur.get(c["p"])
        if not r or "mir" not in r:
            return False
        L = r["mir"]["locals"]
        if k + 1 >= len(L):
            return False
        t = refd(L[k + 1][0])
        return bool(re.match(r"^(?:impl .*IntoIterator|impl .*Iterator|[A-Z]\w*$)", t)) and "iter" in str(r["mir"]["blocks"])


def short(t):
    return re.sub(r"\b[a-z_0-9]+::", "", t)[:60]


def sites(cur):
    S = Sites(cur)
    for i in cur.ids():
        line = cur.raw[i][1]
        if "collections::hash" not in line:
            continue
        f = cur.get(i)
        if f and f.get("mir") and not test_code(i, f):
            S.function(i, f)
    return S


def test_code(i, f):
    return "::test::" in i or "::tests::" in i or "/test" in f.get("span", "") or f.get("derived") and "Serialize" not in i


def banned(cur):
    out, ok, calls = [], 0, 0
    for i in cur.ids():
        f = cur.get(i)
        if not f or not f.get("mir") or test_code(i, f):
            continue
        for b in f["mir"]["blocks"]:
            if not b:
                continue
            t = b[1]
            if t[0] == "call":
                calls += 1
                p = t[1]["p"] + " " + (t[1].get("r") or "")
                if BANNED.search(p):
                    if BANNED_OK.search(i):
                        ok += 1
                    else:
                        out.append((i, f, t[5], t[1]["p"]))
            for s in b[0]:
                rv = s[1]
                if rv[0] == "cast" and "Expose" in str(rv[1]):
                    out.append((i, f, s[2], "the address of a value"))
    return out, ok, calls


def run(cur, rep):
    S = sites(cur)
    if not S.funcs:
        raise Anchor("no function iterating over a HashMap or HashSet was found")
    for (fl, el), ps in sorted(S.open.items()):
        n, why = REVIEWED.get((fl, el), (0, ""))
        if len(ps) > n:
            for i, line, how in ps:
                rep.violation(f"order:{i}:{how}", f"{fl}:{line}",
                              f"the iteration order of an unordered collection of {el} is observed here ({how})"
                              + (f"; {n} such places were reviewed ({why}), {len(ps)} found" if n else ""))
    rep.rule("unordered-iteration", "iteration over HashMap/HashSet with a random hasher is consumed in a way that cannot see the "
             "order, or was reviewed", S.all, 40)
    rep.count("functions_with_unordered_collections", S.funcs)
    rep.count("order_insensitive_places", S.blind)
    rep.count("places_with_a_fixed_hasher", S.fixed)
    rep.count("reviewed_places", sum(len(p) for p in S.open.values()))
    bad, ok, calls = banned(cur)
    for i, f, line, what in bad:
        rep.violation(f"ambient:{i}:{what}", f"{S.file(f)}:{line}", f"{i} uses {what}, which differs from run to run")
    rep.rule("ambient-input", "no call reads a clock, a random source, the environment, a thread or process identity or an address",
             calls, 20000)
    if not ok:
        raise Anchor("the scan for clocks did not find the one use there is (run_datalog)")

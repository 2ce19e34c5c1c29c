"""What a function is about, regardless of how it is written: the program's own functions it
calls, the values it builds, the fields it reads, the literals it uses; and, apart from that,
the plumbing (iterator adapters, option combinators, loops) that holds them together."""
import re
from collections import Counter
from .an import is_std, callee_name, strip_generics

# std calls that say what is computed rather than how it is walked
TELLING = set("""rev skip take last rposition rfind sort sort_by sort_by_key sort_unstable sort_unstable_by
sort_unstable_by_key sorted sorted_by sorted_by_key sorted_unstable dedup unique min max min_by max_by min_by_key max_by_key minmax
remove swap_remove pop pop_front pop_back push_front clear truncate drain chain or_insert_with_key saturating_sub saturating_add
wrapping_add wrapping_sub wrapping_mul checked_add checked_sub checked_mul checked_div checked_rem pow ilog2 leading_zeros trailing_zeros
count_ones to_lowercase to_uppercase trim parse step_by swap reverse starts_with ends_with strip_prefix strip_suffix
rotate_left rotate_right chunks windows split split_at split_off split_first split_last append difference intersection
union symmetric_difference is_subset is_superset is_disjoint cmp partial_cmp cycle skip_while take_while""".split())
QUIET = set("""clone cloned copied deref deref_mut as_ref as_mut into from borrow borrow_mut to_owned as_deref as_deref_mut
index index_mut as_slice as_str to_string to_vec into_boxed_slice from_residual branch from_output drop into_iter iter iter_mut
must_use new_const new_v1 from_str as_bytes fmt new_display new_debug arguments to_string_lossy unwrap expect must_use with_capacity
as_mut_slice by_ref len precondition_check is_empty reserve default must_use""".split())
WALKS = re.compile(r"iter::traits|itertools|<\[T\]>::contains")
ARITH = {"mul", "div", "rem", "shl", "shr", "bitand", "bitor", "bitxor", "mulwithoverflow"}


def norm_adt(p):
    return strip_generics(p)


class Profile:
    def __init__(self):
        self.own = set()        # what it is about
        self.glue = Counter()   # how it is put together
        self.walks = False      # goes through several things
        self.ncall = self.nswitch = self.nclos = 0

    def rewritten(self, o):
        a, b = self.glue - o.glue, o.glue - self.glue
        return bool(a) and bool(b) and self.walks == o.walks and (self.ncall, self.nswitch, self.nclos) != (o.ncall, o.nswitch, o.nclos)


def profile(F, i, look):
    """look(id) -> whether the callee belongs to the function (new or private and moved)"""
    p = Profile()
    seen, st = {i}, [i]
    while st:
        x = st.pop()
        rec = F.get(x) or {}
        bodies = [rec.get("mir")]
        pr = rec.get("prom")
        bodies += list(pr.values()) if isinstance(pr, dict) else list(pr or [])
        for m in bodies:
            if m:
                scan(p, m, F, look, seen, st)
    return p


def scan(p, m, F, look, seen, st):
    for b in m["blocks"]:
        if not b:
            continue
        for s in b[0]:
            rv = s[1]
            places(p, s[0])
            value(p, rv, F, look, seen, st)
        t = b[1]
        k = t[0]
        if k == "call":
            c = t[1]
            for a in t[2]:
                oper(p, a, F, look, seen, st)
            key = c.get("r") or c["p"]
            n = c.get("n") or callee_name(c)
            own = not is_std(key) and not is_std(c["p"]) and not is_std(c.get("tr", ""))
            if key in F and key not in seen and look(key):
                seen.add(key)
                st.append(key)
                continue
            if key in seen:
                continue
            p.ncall += 1
            if n in TELLING:
                p.own.add("std " + n)
                p.glue[n] += 1
            elif own:
                p.own.add("call " + n)
            elif n not in QUIET:
                p.glue[n] += 1
            if WALKS.search(c["p"] + " " + str(c.get("tr", ""))) and n not in QUIET and not own:
                p.walks = True
            if n == "next":
                p.glue["loop"] += 1
        elif k == "switch":
            p.nswitch += 1
            p.glue["switch"] += 1


def places(p, pl):
    for e in pl[1:]:
        if isinstance(e, list) and e and e[0] == "f" and len(e) > 2 and e[2] and "{closure" not in str(e[2]) and not is_std(str(e[2])) and not str(e[1]).isdigit():
            p.own.add("field " + str(e[1]))


def oper(p, o, F, look, seen, st):
    if not isinstance(o, list) or not o:
        return
    if o[0] in ("c", "m"):
        places(p, o[1])
    elif o[0] == "k":
        const(p, o[1:], F, look, seen, st)


def const(p, k, F, look, seen, st):
    for x in k:
        if isinstance(x, dict):
            if "str" in x and str(x.get("ty", "")) in ("&str", "char"):
                p.own.add("text " + x["str"])
            elif "v" in x and str(x["v"]) not in ("0", "1", "true", "false") and x.get("ty") != "isize":
                p.own.add("value " + str(x["v"]))
            elif "def" in x and not is_std(x["def"]):
                p.own.add("const " + x["def"].rsplit("::", 1)[-1])
            if "p" in x and "n" in x:
                key = x.get("r") or x["p"]
                if key in F and key not in seen and look(key):
                    seen.add(key)
                    st.append(key)
                elif not is_std(key) and not is_std(x["p"]):
                    p.own.add("call " + x["n"])
                elif x["n"] in TELLING:
                    p.own.add("std " + x["n"])
            else:
                const(p, list(x.values()), F, look, seen, st)
        elif isinstance(x, list):
            const(p, x, F, look, seen, st)


def value(p, rv, F, look, seen, st):
    k = rv[0]
    if k == "agg":
        if rv[1] == "adt":
            if not is_std(str(rv[3])):
                p.own.add(f"build {short2(rv[3])}::{rv[4]}")
        elif rv[1] in ("closure", "coroutine"):
            p.nclos += 1
            c = rv[3]
            if c in F and c not in seen:
                seen.add(c)
                st.append(c)
        for o in rv[2]:
            oper(p, o, F, look, seen, st)
        return
    if k == "bin" and str(rv[1]).lower() in ARITH:
        p.own.add("op " + str(rv[1]).lower())
    if k == "discr":
        if not is_std(str(rv[2])):
            pass
    for o in rv[1:]:
        if isinstance(o, list) and o:
            if o[0] in ("c", "m", "k"):
                oper(p, o, F, look, seen, st)
            elif isinstance(o[0], int):
                places(p, o)


def short2(p):
    return strip_generics(str(p)).rsplit("::", 1)[-1]

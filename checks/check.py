#!/usr/bin/env python3
"""check.py <property id>: decide one property for /repo's current tree."""
import json, os, re, sys, time, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from lib import facts as FA
from lib.report import Report, Anchor
import scope


def contract_ids(ref, pid):
    """functions of the reviewed tree whose contract belongs to the property"""
    out = []
    pats = [(re.compile(a + "$"), b and re.compile(b), c and re.compile(c)) for a, b, c in scope.SCOPE.get(pid, ())]
    if not pats:
        return out
    for i in ref.ids():
        if "{closure#" in i or "__CALLSITE" in i or i.endswith("::_"):
            continue
        head = ref.raw[i][1]
        m = re.search(r'"span":"([^":]+)', head)
        if not m:
            continue
        f = m.group(1)
        for a, b, c in pats:
            if a.match(f) and (b is None or b.search(i)) and not (c is not None and c.search(i)):
                r = ref.get(i)
                if "mir" in r and not r.get("derived"):
                    out.append(i)
                break
    return out


def contracts(pid, cur, rep):
    from lib.contract import Conformance
    if pid not in scope.SCOPE:
        return
    conf = Conformance(cur=cur)
    ids = contract_ids(conf.rF, pid)
    if len(ids) < 3:
        raise Anchor(f"{pid}: only {len(ids)} functions in scope")
    n0 = conf.nlines
    for i in ids:
        try:
            d = conf.check(i)
        except (RecursionError, IndexError, KeyError, TypeError, ValueError, AttributeError) as e:
            if os.environ.get("HUGR_VERIF_DEBUG"):
                raise
            rep.note(f"not decided ({type(e).__name__}): {i}")
            continue
        if d:
            r = cur.get(i) or conf.rF.get(i)
            rep.violation("contract:" + i, r.get("span", "?"),
                          "does something else than the reviewed behaviour", [" ".join(x for x in l if x) for l in d])
    present = sum(1 for i in ids if conf.c.has(i))
    rep.count("functions", len(ids))
    rep.count("functions_present", present)
    rep.count("behaviour_lines_compared", conf.nlines - n0)
    rep.count("functions_compared_through_helpers", len(conf.deep))
    for i in ids[:: max(1, len(ids) // 5)][:5]:
        s = conf.r.lines(i)
        if s:
            k = sorted(s)[0]
            from lib.contract import line
            from lib.cond import fmt
            rep.sample(f"{i}: {line(k)} IF {fmt(s[k][0])}"[:400])


def main():
    pid = sys.argv[1]
    t0 = time.time()
    rep = Report(pid, t0)
    FA.ensure()
    cur = FA.Facts()
    try:
        m = importlib.import_module("rules." + pid.lower())
    except ModuleNotFoundError as e:
        if e.name not in ("rules", "rules." + pid.lower()):
            raise
        m = None
    for step in ([m.run] if m else []) + [lambda c, r: contracts(pid, c, r)]:
        try:
            step(cur, rep)
        except (Anchor, LookupError) as e:
            rep.violation("anchor:" + type(e).__name__, "-", f"what the check is about is no longer there: {e}")
    sys.exit(rep.finish())


if __name__ == "__main__":
    try:
        main()
    except FA.CheckError as e:
        print("ERROR", e)
        sys.exit(2)

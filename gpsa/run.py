"""Run one property's analysis: agreement with the reviewed reference + reference-free rules."""
import os
import sys
import time
import traceback
from multiprocessing import get_context

from .loader import Tree
from . import entries as EN
from . import compare as C
from . import rint
from .terms import show

_S = {}


def _init(deadline):
    sys.setrecursionlimit(20000)
    _S["deadline"] = deadline


_EQ = {}


def compare(ref, cur, e, o, voc, deep=True):
    """compare one entry; what is not equal by itself may be equal by congruence"""
    x = C.Ctx(*voc)
    re, ce = set(), set()
    res = EN.compare_entry(x, ref, e, cur, o, re, ce)
    if all(r.v == C.EQ for _, r in res) or not deep or e.kind in ("module", "class"):
        return res
    own = EN.owners(ref).get(id(e.node))
    if not EN.same_source(ref, cur, own):
        return res

    def verdict(key, e):
        sc = e.selfcls.name if e.selfcls is not None else ""
        k = (key, sc)
        if k not in _EQ:
            _EQ[k] = C.DIFF
            a, b = EN.entry_for(ref, key, e.selfcls), EN.entry_for(cur, key, o.selfcls)
            if a is not None and b is not None:
                vs = {r.v for _, r in compare(ref, cur, a, b, voc)}
                _EQ[k] = C.DIFF if C.DIFF in vs else C.UNK if vs - {C.EQ} else C.EQ
        return _EQ[k]
    if EN.congruent(ref, cur, e, o, re, ce, lambda k, e: verdict(k, e) == C.EQ):
        return [(n, C.EQR) for n, _ in res]
    if any(r.v == C.DIFF for _, r in res) and EN.congruent(ref, cur, e, o, re, ce, lambda k, e: verdict(k, e) != C.DIFF):
        # a caller cannot tell apart what is not told apart by itself
        return [(n, C.unk("through a callee: " + (r.why or "")) if r.v == C.DIFF else r) for n, r in res]
    return res


def _work(i):
    ref, cur, pairs, voc = _S["ref"], _S["cur"], _S["pairs"], _S["voc"]
    e, o = pairs[i]
    base = {"entry": ".".join(k for k in e.key if k), "kind": e.kind, "results": []}
    src = o or e
    base["file"] = src.module.rel
    base["line"] = getattr(src.node, "lineno", getattr(getattr(src.cls, "node", None), "lineno", 1))
    if time.time() > _S["deadline"]:
        base["results"].append(("body", C.UNK, "analysis budget of this run used up", "", ""))
        return base
    if o is None:
        n = e.key[2]
        pub = not n.startswith("_") or n.startswith("__") or n in EN.HOOKS or e.kind in ("dispatch", "setter")
        gone = e.key[0] not in cur.modules
        base["results"].append(("definition", C.DIFF if pub and not gone else C.UNK, "no longer defined", "", ""))
        return base
    try:
        res = compare(ref, cur, e, o, voc)
        for obs, r in res:
            base["results"].append((obs, r.v, r.why or "", show(r.r, 5)[:600] if r.r is not None else "", show(r.c, 5)[:600] if r.c is not None else ""))
    except Exception:
        base["results"].append(("body", C.UNK, "not analysed: " + traceback.format_exc(limit=-2).replace("\n", " | ")[:400], "", ""))
    return base


def agreement(ref, cur, select, obs_filter, budget, jobs=8):
    rn, rs = EN.vocabulary(ref)
    cn, cs = EN.vocabulary(cur)
    rint.learn_classes(cur)
    rint.learn_classes(ref)
    pairs = [(e, EN.locate(e, ref, cur)) for e in EN.collect(ref) if select(e.key)]
    pairs += [(e, o) for e, o in EN.extra_overrides(ref, cur) if select(e.key)]
    _S.update(ref=ref, cur=cur, pairs=pairs, voc=(rn, cn, rs, cs))
    # long entries first
    order = sorted(range(len(pairs)), key=lambda i: -(pairs[i][0].node.end_lineno - pairs[i][0].node.lineno if pairs[i][0].node is not None else 0))
    out = []
    deadline = time.time() + budget
    ctx = get_context("fork")
    with ctx.Pool(min(jobs, os.cpu_count() or 1, max(1, len(order))), initializer=_init, initargs=(deadline,)) as p:
        for r in p.imap_unordered(_work, order, chunksize=1):
            if obs_filter:
                r["results"] = [q for q in r["results"] if obs_filter(q[0])]
            out.append(r)
    out.sort(key=lambda r: r["entry"])
    return out

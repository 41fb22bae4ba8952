"""Agreement of every observable entry of the current tree with the reviewed reference."""
import time
from .loader import Tree
from . import entries as EN
from . import compare as C
from . import run as RUN
from . import rint


class Finding:
    def __init__(self, e, o, obs, r):
        self.key = e.key
        self.file = (o or e).module.rel
        self.line = getattr((o or e).node, "lineno", getattr(getattr((o or e).cls, "node", None), "lineno", 1))
        self.obs, self.r = obs, r

    @property
    def name(self):
        return ".".join(k for k in self.key if k)


def compare_trees(ref, cur, select=lambda key: True, on=None):
    rn, rs = EN.vocabulary(ref)
    cn, cs = EN.vocabulary(cur)
    diffs, unks, stats = [], [], {"entries": 0, "observables": 0, "equal": 0, "undecided": 0, "missing": 0}
    pairs = []
    RUN._EQ.clear()
    rint.learn_classes(cur)
    rint.learn_classes(ref)
    for e in EN.collect(ref):
        if not select(e.key):
            continue
        pairs.append((e, EN.locate(e, ref, cur)))
    for e, o in EN.extra_overrides(ref, cur):
        if select(e.key):
            pairs.append((e, o))
    for e, o in pairs:
        stats["entries"] += 1
        if o is None:
            stats["missing"] += 1
            n = e.key[2]
            pub = not n.startswith("_") or n.startswith("__") or n in EN.HOOKS or e.kind in ("dispatch", "setter")
            mod_gone = e.key[0] not in cur.modules and not any(er[0] == e.module.rel for er in cur.errors)
            r = C.diff("no longer defined") if pub and not mod_gone else C.unk("not found")
            (diffs if r.v == C.DIFF else unks).append(Finding(e, None, "definition", r))
            continue
        x = C.Ctx(rn, cn, rs, cs)
        t = time.time()
        for obs, r in RUN.compare(ref, cur, e, o, (rn, cn, rs, cs)):
            stats["observables"] += 1
            if r.v == C.EQ:
                stats["equal"] += 1
            elif r.v == C.UNK:
                stats["undecided"] += 1
                unks.append(Finding(e, o, obs, r))
            else:
                diffs.append(Finding(e, o, obs, r))
        if on:
            on(e, time.time() - t)
    return diffs, unks, stats

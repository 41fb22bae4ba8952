"""Self-test of the comparator on pairs of small functions.

cases*.txt holds blocks

    == same|diff|any  title
    <reviewed code>
    --
    <rewritten code>

`same`: behaviour-preserving, an alarm (DIFF) is a failure (EQ wanted, UNK tolerated and counted).
`diff`: behaviour-changing, EQ is a failure (DIFF wanted, UNK counted as a miss).
"""
import glob, os, re, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from gpsa.loader import Tree
from gpsa import agree, compare as C
from gpsa.terms import show
PRE = '''import numpy as np
import jax
import jax.numpy as jnp
import netket as nk
import netket.jax as nkjax
from netket.utils import mpi
from functools import partial
import math
from jax.scipy.special import logsumexp
from netket.stats import mean as _mean
from netket.stats.mpi_stats import sum as _sum
'''


def load(files):
    for fn in files:
        for b in re.split(r"^== ", open(fn).read(), flags=re.M)[1:]:
            h, _, body = b.partition("\n")
            kind, _, title = h.partition(" ")
            a, c = re.split(r"^--\n", body, flags=re.M)
            yield kind, title.strip(), a, c


def main():
    files = [f for f in sys.argv[1:] if f.endswith(".txt")] or sorted(glob.glob(os.path.join(HERE, "cases*.txt")))
    flt = next((f for f in sys.argv[1:] if not f.endswith(".txt")), "")
    cases = [c for c in load(files) if flt in c[1]]
    d = tempfile.mkdtemp()
    try:
        for k in ("a", "b"):
            os.makedirs(os.path.join(d, k, "GPSKet"))
            open(os.path.join(d, k, "GPSKet", "__init__.py"), "w").close()
        for i, (_, _, a, b) in enumerate(cases):
            for k, s in (("a", a), ("b", b)):
                open(os.path.join(d, k, "GPSKet", "c%03d.py" % i), "w").write(PRE + s)
        A, B = Tree(os.path.join(d, "a")), Tree(os.path.join(d, "b"))
        stat, bad = {}, 0
        for i, (kind, title, _, _) in enumerate(cases):
            df, un, st = agree.compare_trees(A, B, lambda k: k[0] == "GPSKet.c%03d" % i and k[2] != "<module>")
            v = "DIFF" if df else "UNK" if un else "EQ"
            if not st["entries"]: v = "NONE"
            stat[kind, v] = stat.get((kind, v), 0) + 1
            if (kind == "same" and v != "EQ") or (kind == "diff" and v != "DIFF"):
                wrong = (kind, v) in (("same", "DIFF"), ("diff", "EQ")) or v == "NONE"
                bad += wrong
                x = (df or un or [None])[0]
                print("%s %-5s %-5s %s | %s" % ("**" if wrong else "  ", kind, v, title, x and (x.obs + ": " + (x.r.why or ""))[:150]))
                if flt and x:
                    print("     ", x.r.r is not None and show(x.r.r, 6)[:500]); print("     ", x.r.c is not None and show(x.r.c, 6)[:500])
        print(stat, "failures", bad)
        return 1 if bad else 0
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    sys.exit(main())

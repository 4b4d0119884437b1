"""Conversion of an assembled matrix to a scipy sparse matrix loses nothing."""
from fractions import Fraction

from symx.core import lift
from symx.loader import load

MUST_RUN = ["space_time.py:get_sparse_matrix"]
ASSUMPTIONS = ["scipy's csr_matrix((data, indices, indptr)) is a contract: row i holds "
               "data[indptr[i]:indptr[i+1]]; without a shape the number of columns is the largest "
               "column index + 1"]


def bounds(tier):
    return ("matrices up to %s with every sparsity pattern (each entry stored or not) and arbitrary "
            "real values, compared without any tolerance; 2 x 70000 with any subset of eight columns in one row, and "
            "33002 x 1 with the last entry stored or not (index types of 16 bits)." % ("3 x 3" if tier == "thorough" else "2 x 3 and 3 x 2"))


MAX_PATHS = 1024


def configs(tier):
    S = [(1, 1), (1, 3), (2, 2), (2, 3), (3, 2)] + ([(3, 3)] if tier == "thorough" else [])
    out = [dict(name=f"{a}x{b}", nr=a, nc=b, exp=0, cost=2 ** (a * b)) for a, b in S]
    # entries of any magnitude: the concrete replays use tiny and huge ones as well
    # index types: far columns, many entries
    out += [dict(name="wide", wide=70000, cost=100), dict(name="long", long=33000, cost=1000)]
    return out + [dict(name=f"{a}x{b} {nm}", nr=a, nc=b, exp=e, cost=2 ** (a * b))
                  for a, b in S[:3] for nm, e in (("tiny", -80), ("huge", 80))]


COLUMNS = (127, 128, 255, 256, 32767, 32768, 65535, 65536)


def same(a, b):
    """The same number, written the same way."""
    a, b = lift(a), lift(b)
    return a.key() == b.key()


def large(env, cfg):
    """Large matrices: the column numbers and the number of entries need more than 16 bits."""
    from symx.fakes import dolfinx as D

    ld, m = load("space_time")
    if "wide" in cfg:
        A = D.Mat(2, cfg["wide"])
        for j in COLUMNS:
            if env.boolean(f"stored[{j}]"):
                A.add(0, j, env.real(f"a[{j}]"))
        A.add(1, cfg["wide"] - 1, 1)
    else:
        A = D.Mat(cfg["long"] + 2, 1)
        for i in range(cfg["long"]):
            A.add(i, 0, i + 1)
        if env.boolean("stored"):
            A.add(cfg["long"] + 1, 0, env.real("a"))
    want = {k: A.entry(*k) for k in ([(0, j) for j in COLUMNS] + [(1, cfg["wide"] - 1)] if "wide" in cfg else
                                     [(i, 0) for i in range(cfg["long"] + 2)])}
    A.assemble()
    S = m.get_sparse_matrix(A)
    env.check("shape", tuple(S.shape) == tuple(A.getSize()))
    got = S.entries()
    env.check("no entry elsewhere", set(got) <= set(want))
    diff = [k for k in want if not same(got.get(k, 0), want[k])]
    env.check_same("values", [got.get(k, 0) for k in diff], [want[k] for k in diff])
    env.reach()


def harness(env, cfg):
    if "nr" not in cfg:
        return large(env, cfg)
    from symx.fakes import dolfinx as D

    ld, m = load("space_time")
    nr, nc = cfg["nr"], cfg["nc"]
    A = D.Mat(nr, nc)
    scale = Fraction(2) ** cfg["exp"] / 3
    for i in range(nr):
        for j in range(nc):
            if env.boolean(f"stored[{i},{j}]"):
                A.add(i, j, env.real(f"a[{i},{j}]") * (scale if env.mode == "sym" else float(scale)))
    A.assemble()
    S = m.get_sparse_matrix(A)
    env.check("shape", tuple(S.shape) == (nr, nc))
    got = S.entries()
    for (i, j) in got:
        env.check("entries inside the matrix", 0 <= i < nr and 0 <= j < nc)
    env.check_same("values", [got.get((i, j), 0) for i in range(nr) for j in range(nc)],
                     [A.entry(i, j) for i in range(nr) for j in range(nc)])
    # the product with an arbitrary vector is the product with the original
    x = list(env.reals("x", nc))
    y = [sum((v * x[j] for (r, j), v in got.items() if r == i), 0) for i in range(nr)]
    (env.check_same if env.mode == "sym" else env.check_eq_all)("product", y, list(A.times(x)))
    # a later conversion is one of its own
    for later in ("another matrix", "the same matrix with other values"):
        if later == "another matrix":
            B = D.Mat(nr, nc)
            for i in range(nr):
                B.add(i, i % nc, env.real(f"b[{i}]"))
        else:
            B = A
            B.add(nr - 1, nc - 1, 1)
        B.assemble()
        S2 = m.get_sparse_matrix(B).entries()
        env.check_same(later, [S2.get((i, j), 0) for i in range(nr) for j in range(nc)],
                       [B.entry(i, j) for i in range(nr) for j in range(nc)])
    env.reach()

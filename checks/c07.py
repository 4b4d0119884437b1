"""The layout of the space-time unknowns: nothing lost, nothing counted twice."""
from .st import Model, cfgs

MUST_RUN = ["space_time.py:SpaceTime.setup_spacetime_finite_elements"]
ASSUMPTIONS = ["the numbering of a mixed space is a fixed scrambled permutation; a scalar space obtained "
               "by collapsing keeps its own numbering, as in dolfinx"]


def bounds(tier):
    return ("time degrees q 0..3, q* 0..3, space degrees up to 3 (different for both variables), 1 to %d "
            "slabs; arbitrary vectors." % (8 if tier == "thorough" else 5))


def configs(tier):
    out = []
    for q in range(4):
        for s in range(4):
            for k, ks in ((1, 1), (2, 1), (1, 3)):
                for N in ((1, 2, 3, 5, 8) if tier == "thorough" else (1, 2, 5)):
                    if tier != "thorough" and (k, ks) != (1, 1) and (q + s + N) % 2:
                        continue
                    out.append(dict(q=q, s=s, k=k, ks=ks, N=N))
    # many small configurations in one process
    out = cfgs(*out)
    n = 12
    return [dict(name=f"part{i}", parts=out[i::n]) for i in range(n) if out[i::n]]


def harness(env, cfg):
    for c in cfg["parts"]:
        one(env, c)
    env.reach()


def one(env, cfg):
    nm = cfg["name"]
    M = Model(env, cfg)
    st = M.st
    order = [M.q, M.q, M.s, M.s]
    deg = [M.k, M.k, M.ks, M.ks]
    # the spaces hold what the method asks for
    for V, slabs in ((st.fes, M.N), (st.fes_p, 1)):
        blocks = V.block_components()
        env.check(f"{nm}: four unknowns with (degree in time + 1) * slabs components",
                  [len(b) for b in blocks] == [(o + 1) * slabs for o in order])
        env.check(f"{nm}: continuous elements of the requested degree", all(
            V.comps[c] == ("CG", deg[j]) for j, b in enumerate(blocks) for c in b))
    # a vector is taken apart and put together again
    for label, V, maps in (("space-time", st.fes, st.dofmaps_full), ("slab", st.fes_p, st.dofmaps_pre)):
        v = M.vector(f"{nm}.{label}", V.ndof)
        comps = V.block_components()
        back = M.zeros(V.ndof)
        got, want = [], []
        env.check(f"{nm}: one map per unknown ({label})",
                  [len(x) for x in maps] == [len(b) for b in comps])
        for j, b in enumerate(comps):
            for i, c in enumerate(b):
                piece = v.array[maps[j][i]]
                got += list(piece)
                want += list(v.array[V.dofs[c]])
                back.array[maps[j][i]] += piece
        env.check(f"{nm}: sizes ({label})", len(got) == len(want))
        env.check_eq_all(f"{nm}: piece (variable, slab, time node) of a {label} vector", got, want)
        env.check_eq_all(f"{nm}: the pieces make up the {label} vector", list(back.array), list(v.array))
    # the spaces of single time nodes have the layout of the pieces
    for V, d in ((st.fes_u1_0, M.k), (st.fes_u2_0, M.k), (st.fes_u1_0_pre, M.k), (st.fes_u2_0_pre, M.k)):
        env.check(f"{nm}: scalar space at a time node", V.is_scalar() and V.comps[0] == ("CG", d))

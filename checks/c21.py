"""Mesh files mark every part of the domain and the boundary."""
from .ms import EPS, arguments, both, cases, either, implies, inside, neg, setup

MUST_RUN = ["meshes.py:*"]
MAX_PATHS = 256
ASSUMPTIONS = [
    "gmsh is a contract: exact boolean operations of unions of boxes with connected pieces; the cells "
    "of an entity carry the tag of its physical group",
    "distances below 1e-7 are not distinguished"]

FNS = [fn for fn, c in cases().items() if c.kind != "nodes"]


def bounds(tier):
    return ("the seven meshes that are read back from files or from the gmsh model; every interface "
            "position 0.3..0.94; every mesh size; every point of space and of the boundary.")


def configs(tier):
    return [dict(name=fn, fn=fn, n=1) for fn in FNS]


def harness(env, cfg):
    c = cases()[cfg["fn"]]
    s, m = setup(env, cfg)
    a = arguments(env, c, cfg)
    meshes = c.call(m, a)
    if c.kind == "model":
        f = meshes[0].source
    else:
        f = s.files["mesh.msh"]
    tagged(env, c, a, f)
    if c.lines:
        boundary(env, f)
    env.reach()


def tagged(env, c, a, f):
    saved = {t for t, _, _ in f.regions}
    env.check("every part of the domain is marked", saved == {x[1] for x in f.state[0]})
    env.check("no part is marked twice", all(len(tags) == 1 for _, _, tags in f.regions))
    if c.tags is None:
        ts = [tags[0] for _, _, tags in f.regions]
        env.check("parts are told apart", len(set(ts)) == len(ts))
        env.check("markers are positive", all(t > 0 for t in ts))
        return
    p = [env.real("p" + "xyz"[i], -4, 4) for i in range(c.dim)]
    spec = c.tags(a)
    named = [b for _, bs in spec if bs is not None for b in bs]
    env.check("only the documented markers", {tg[0] for _, _, tg in f.regions} ==
              {t for t, _ in spec})
    for tag, bs in spec:
        mine = [b for _, r, tags in f.regions if tags[0] == tag for b in r.boxes]
        within = inside(env, p, bs, True, EPS) if bs is not None else both(
            inside(env, p, c.domain(a), True, EPS), neg(inside(env, p, named, False, EPS)))
        env.check(f"marker {tag} covers its set", implies(within, inside(env, p, mine, eps=EPS)))
        env.check(f"marker {tag} is only on its set", implies(
            inside(env, p, mine, True, EPS),
            inside(env, p, bs, eps=EPS) if bs is not None else neg(inside(env, p, named, True, EPS))))


def boundary(env, f):
    """The facets with marker 1 are the boundary of the unit square."""
    t, x = env.real("t", 0, 1), env.real("x", 0, 1)
    segs = [b for _, (k, bs), tags in f.lines if tags == [1] for b in bs]
    env.check("only marked facets are saved", all(tags == [1] for _, _, tags in f.lines))
    for nm, p in (("left", (0, t)), ("right", (1, t)), ("bottom", (t, 0)), ("top", (t, 1))):
        env.check(f"{nm} side is marked as boundary", inside(env, p, segs, eps=EPS))
    for b in segs:
        on = False
        for k in range(2):
            for v in (0, 1):
                on = either(on, both(both(b[k][0] >= v - EPS, b[k][0] <= v + EPS),
                                     both(b[k][1] >= v - EPS, b[k][1] <= v + EPS)))
        env.check("only facets of the boundary are marked", on)

"""The lifting polynomial that makes the reconstruction continuous in time."""
from symx.loader import load

from .util import derivative

MUST_RUN = ["precomp_time_int.py:theta_ref", "precomp_time_int.py:d_theta_ref"]


def bounds(tier):
    return "reference time tau any real number in [-1, 1]; jump and one-sided values any real numbers."


def configs(tier):
    return [dict(name="theta")]


def harness(env, cfg):
    ld, m = load("precomp_time_int", standins={})
    th, dth = m.theta_ref, m.d_theta_ref
    tau = env.real("tau", -1, 1)
    env.check_eq("one at the start of the slab", th(-1.0), 1)
    env.check_eq("zero at the end of the slab", th(1.0), 0)
    env.check_eq("zero at the interior node", th(0.0), 0)
    env.check_eq("the quadratic through these nodes", th(tau), tau * (tau - 1) / 2)
    env.check_eq("derivative", dth(tau), derivative(env, th, tau))
    env.check_eq("derivative of the quadratic", dth(tau), tau - 0.5)
    # continuity: u_start - theta(-1) * (u_start - u_minus) = u_minus
    u0, um = env.real("u_start"), env.real("u_before")
    env.check_eq("removes the jump", u0 - th(-1.0) * (u0 - um), um)
    env.check_eq("keeps the end value", u0 - th(1.0) * (u0 - um), u0)
    env.reach()

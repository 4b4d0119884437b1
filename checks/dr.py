"""Set-up shared by the properties of the driver scripts."""
from __future__ import annotations

import inspect

from symx import loader

DRIVERS = {1: "solve_1d", 2: "solve_2d", 3: "solve_3d"}


class Stop(BaseException):
    """The driver has set up its problem."""


class Setup:
    pass


def problem(dim, constants=None, before=None, **k):
    """The arguments that the driver hands to SpaceTime, and the module so far."""
    name = "dxss." + DRIVERS[dim]
    c = {n: v for n, v in (constants or {}).items()}
    ld, st = loader.load("space_time", constants={name: c}, **k)
    original = st.SpaceTime
    sig = inspect.signature(original.__init__)
    got = Setup()

    def init(self, *a, **kw):
        b = sig.bind(self, *a, **kw)
        b.apply_defaults()
        for n, v in b.arguments.items():
            setattr(got, n, v)
        raise Stop

    original.__init__ = init
    if before:
        before(ld)
    try:
        ld.get(name)
        raise AssertionError("the driver has set up no problem")
    except Stop:
        pass
    got.module = ld.begun[name]
    got.output = ld.output
    return got

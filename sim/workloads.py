"""Rank-side dispatch."""
import importlib


class SimUserError(Exception):
    """Raised by workloads to stand for an exception in user code."""


def dispatch(spec, ctx):
    mod = importlib.import_module('sim.props.' + spec['mod'])
    return getattr(mod, spec['fn'])(spec, ctx)

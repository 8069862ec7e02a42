"""Concrete side of every check: run the real code of /repo on concrete inputs against executable contracts.

A *case* is (name, params): params are JSON-serialisable, the case function rebuilds everything from them,
runs the real code and raises Fail when the contract of the property does not hold.
"""
import json
import math
import os
import random
import sys
import time
import traceback
import warnings

os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')


class Fail(Exception):
    """The contract does not hold on this input."""


class Reject(Exception):
    """The input is outside the precondition (not a failure)."""


CASES = {}
GENS = {}


def case(fn):
    CASES[fn.__name__] = fn
    return fn


def generator(*props):
    def deco(fn):
        for p in props:
            GENS.setdefault(p, []).append(fn)
        return fn
    return deco


def need(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


def near(a, b, tol=2e-4):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def same_array(a, b, tol=2e-4):
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b))))


def same_rel(a, b, tol=2e-4):
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if b.size == 0 or b.min() < 0:
        return True
    return bool(np.all(np.abs(a - b) <= tol * (np.abs(a) + np.abs(b)) + 1e-36))


def need_array(got, want, what, rel=False):
    """rel: every entry is a sum or product of non-negative numbers, so it is known to a relative error"""
    import numpy as np
    try:
        import torch
        if isinstance(got, torch.Tensor):
            got = (got.to_dense() if got.layout != torch.strided else got).detach().cpu().numpy()
        if isinstance(want, torch.Tensor):
            want = (want.to_dense() if want.layout != torch.strided else want).detach().cpu().numpy()
    except ImportError:
        pass
    if not (same_array(got, want) and (not rel or same_rel(got, want))):
        raise Fail('%s:\n got  %s\n want %s' % (what, np.asarray(got).tolist(), np.asarray(want).tolist()))


class raises:
    """with raises('what'): ... -- the block must raise an exception (of one of the given types)"""

    def __init__(self, what, types=(Exception,)):
        self.what, self.types = what, types

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            raise Fail('%s was accepted' % self.what)
        if t in (KeyboardInterrupt, SystemExit):
            return False
        return issubclass(t, self.types)


def run_case(name, params):
    """None when the contract holds, else a message."""
    import torch
    torch.manual_seed(12345)
    random.seed(12345)
    import numpy as np
    np.random.seed(12345)
    try:
        CASES[name](params)
        return None
    except Reject:
        return None
    except Fail as e:
        return str(e)
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, '\n'.join(tb[-6:]))

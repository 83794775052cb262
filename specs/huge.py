"""The cases of big.py in 60 dimensions, where the run-time basis blades range over the subsets of eight basis vectors; and the choice of cases per tier."""
import importlib.util
import os
from . import big


def load(**kw):
    s = importlib.util.spec_from_file_location('specs.' + kw['TAG'], os.path.join(os.path.dirname(__file__), 'big.py'))
    m = importlib.util.module_from_spec(s)
    m.__package__ = 'specs'
    s.loader.exec_module(m)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def mask(*idx):
    return sum(1 << (i - 1) for i in idx)


_m = load(TAG='huge', P=25, Q=20, R=15, N=60, NEG=((1 << 20) - 1) << 25, NUL=((1 << 15) - 1) << 45, MASK=mask(1, 2, 24, 32, 33, 34, 47, 60))
run, con = _m.run, _m.con
_m.PAIRS = [(con(2, 24, 31, 32, 33, 35, 60), run()), (run(), con(1, 20, 33, 34, 50)), (con(32, 33, 59), con(1, 24, 31, 33, 45)), (con(1, 2, 3, 30), con(1, 2, 24, 30, 32, 33, 47)),
            (con(2, 24, 33), con(2, 24, 33)), (con(2, 32, 33, 34), run()), (con(26, 40, 44), con(26, 40, 44)), (con(3, 46), con(3, 46))]
_U = [run(), con(*range(3, 41, 2)), con(1, 2, 33, 34, 60)] + [con(*range(1, k + 1)) for k in (30, 31, 32, 33, 46, 59)]
# two run-time blades at once: quickly over the subsets of nine of the twelve basis vectors
_q = load(TAG='big', MASK=mask(1, 2, 4, 5, 6, 8, 9, 10, 12))


def both(p):
    return all(o[0].startswith('run') for o in p)


_b = load(TAG='big')
_b.PAIRS = [p for p in big.PAIRS if not both(p)]
_q.PAIRS = [p for p in _q.PAIRS if both(p)]


def products(tier, prop, *fns):
    small = big.products(prop, *fns) if tier == 'thorough' else _b.products(prop, *fns) + _q.products(prop, *fns)
    return small + _m.products(prop, *fns)


def involutions(prop):
    return big.involutions(prop) + [_m.case(prop, '%s(x)' % fn, fn, [o], _m.unary_sign(fn)) for fn in ('reverse', 'involute', 'conjugate') for o in _U]

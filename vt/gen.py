"""Small building blocks for generators."""
from hypothesis import strategies as st
import numpy as np

# values on a coarse grid: exactly representable, shrink to 0
GRID = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 0.25, -2.0, 1.5, -0.25, 0.75, -1.5, 3.0, -3.0, 0.125, -0.75]


def grid(n, lo=None):
    """n values drawn from GRID in one draw."""
    return st.binary(min_size=n, max_size=n).map(lambda b: [GRID[x % 16] for x in b])


def grid_np(*shape):
    n = int(np.prod(shape))
    return grid(n).map(lambda v: np.array(v).reshape(shape))


def ints(n, lo, hi):
    """n integers in [lo, hi] in one draw."""
    w = hi - lo + 1
    return st.binary(min_size=n, max_size=n).map(lambda b: [lo + x % w for x in b])


def unique_names(pool, lo, hi):
    return st.lists(st.sampled_from(pool), min_size=lo, max_size=hi, unique=True)

"""Shared by the white noise properties."""
from common import *


def noise_seeds():
    st = S()
    # 0 stands for 1 in the generator underneath, so that it is not a seed of its own
    return st.one_of(st.integers(1, 20), st.integers(1, 2 ** 31 - 1))


def mesh_sizes(nd, hi, lo=1):
    st = S()
    return st.one_of(st.integers(lo, hi).map(lambda n: [n] * nd),
                     st.integers(lo, max(lo, hi // 2)).map(lambda n: [2 * n] * nd),
                     st.lists(st.integers(lo, hi), min_size=nd, max_size=nd))


def fill(a, start, N, seed, unitary):
    from pmesh.whitenoise import generate
    generate(a, start, N, seed, unitary)


def whole(N, seed, unitary, dtype="c16", half=False):
    import numpy as np
    n = list(N)
    if half:
        n[-1] = N[-1] // 2 + 1
    a = np.full(n, np.nan, dtype)
    fill(a, [0] * len(N), N, seed, unitary)
    return a


def mirror(a):
    """The value at minus each mode of a full mesh."""
    import numpy as np
    for d in range(a.ndim):
        a = np.take(a, -np.arange(a.shape[d]) % a.shape[d], axis=d)
    return a


def self_conjugate(N, half=False):
    import numpy as np
    m = np.ones([1] * len(N), bool)
    for d, n in enumerate(N):
        i = np.arange(n // 2 + 1 if half and d == len(N) - 1 else n)
        m = m & ((-i) % n == i).reshape([-1 if e == d else 1 for e in range(len(N))])
    return m


def freq(n, half=False):
    import numpy as np
    i = np.arange(n // 2 + 1 if half else n)
    return np.where(2 * i >= n, i - n, i) if not half else i

"""helpers shared by the checks (world independent)"""
import itertools
import numpy as np


def parts(n, kmax=None):
    """all compositions of n (chunkings)"""
    if n == 0:
        return [()]
    return [(k,) + r for k in range(1, n + 1) for r in parts(n - k)]


def conj(x):
    return x.conjugate()


def mat(x):
    """2x2 array -> nested lists"""
    return [[x[0, 0], x[0, 1]], [x[1, 0], x[1, 1]]]


def mm(a, b):
    return [[a[i][0] * b[0][j] + a[i][1] * b[1][j] for j in range(2)]
            for i in range(2)]


def madd(a, b):
    return [[a[i][j] + b[i][j] for j in range(2)] for i in range(2)]


def mH(a):
    return [[a[j][i].conjugate() for j in range(2)] for i in range(2)]


def ndfill(shape, f):
    o = np.empty(shape, dtype=object)
    for ix in itertools.product(*[range(n) for n in shape]):
        o[ix] = f(*ix)
    return o


def keepall(b, **arrs):
    """snapshot arrays; returns function claiming they are unchanged"""
    snap = {k: (a, b.copy(a)) for k, a in arrs.items() if a is not None}

    def check():
        for k, (a, c) in snap.items():
            b.eq("input %s unchanged" % k, a, c)
    return check

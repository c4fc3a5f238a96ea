"""Encodings of numbers for traces."""
import math
import numpy as np

BADNUM = -99999999


def q(x, scale=4, tol=1e-9):
    """exact multiple of 1/scale -> integer; anything else -> BADNUM"""
    try:
        y = float(x) * scale
    except (TypeError, ValueError):
        return BADNUM
    if not math.isfinite(y) or abs(y - round(y)) > tol * scale or abs(y) > 2e9:
        return BADNUM
    return int(round(y))


def fx(x, scale):
    """fixed point, rounded"""
    try:
        y = float(x) * scale
    except (TypeError, ValueError):
        return BADNUM
    if not math.isfinite(y) or abs(y) > 1.9e9:
        return BADNUM
    return int(round(y))


def qs(a, scale=4):
    return [q(x, scale) for x in np.asarray(a, dtype=float).ravel()]


def qm(a, scale=4):
    return [[q(x, scale) for x in r] for r in a]

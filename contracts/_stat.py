"""Definitions used as oracles by contracts (not copies of the code: closed statements of the statistic)."""
from pyvc.contract import Skip


def robust_mean(x, dv):
    """mean of the values within dv robust standard deviations of the median, estimated in two stages; discards inputs
    with a value on a threshold"""
    import numpy as np

    x = np.ravel(np.asarray(x))
    med = np.median(x)
    ad = np.abs(x - med)
    mad = np.median(ad) / 0.6745

    def far(lim):
        if lim > 0 and np.any(np.abs(ad - lim) < 1e-9 * (1 + ad)):
            raise Skip

    far(dv * mad)
    keep = x[ad <= dv * mad]
    sig = np.std(keep)
    d1 = max(dv, 1.0)
    if d1 <= 4.5:
        sig = sig / (((0.020142 * d1 - 0.23584) * d1 + 0.90723) * d1 - 0.15405)
    far(dv * sig)
    sub = x[ad <= dv * sig]
    if sub.size == 0:
        raise Skip
    return np.mean(sub)

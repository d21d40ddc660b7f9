"""Reference formulas of layered models, written from the definitions."""
import importlib.util
import math
import os
import numpy as np
import rf.simple_model
from symrf import engine as E

DEG = 111.2


def sqrt(x):
    return E.s_sqrt(x) if E.is_sym(x) else (
        math.sqrt(x) if x >= 0 else math.nan)


def vslow(v, slow):
    """vertical slowness"""
    return sqrt(v ** (-2) - (slow / DEG) ** 2)


def legs(phase):
    phase = phase.upper()
    return phase.count('P'), phase.count('S'), phase[0]


def delay_increments(z, vp, vs, slow, phase):
    """delay time across the layers between the depths z"""
    np_, ns, first = legs(phase)
    out = []
    for i in range(len(z) - 1):
        s = 0.
        if np_:
            s = s + vslow(vp[i], slow) * (np_ - (2 if first == 'P' else 0))
        if ns:
            s = s + vslow(vs[i], slow) * (ns - (2 if first == 'S' else 0))
        out.append(s * (z[i + 1] - z[i]))
    return out


def delay_times(z, vp, vs, slow, phase):
    """delay times at the depths z (0 at the surface)"""
    t = [0.]
    for d in delay_increments(z, vp, vs, slow, phase):
        t.append(t[-1] + d)
    return t


def distances(z, vp, vs, slow, phase):
    """horizontal distances at the depths z"""
    np_, ns, _ = legs(phase)
    x = [0.]
    for i in range(len(z) - 1):
        dz = z[i + 1] - z[i]
        s = x[-1]
        if np_:
            s = s + dz * (slow / DEG) / vslow(vp[i], slow) * np_
        if ns:
            s = s + dz * (slow / DEG) / vslow(vs[i], slow) * ns
        x.append(s)
    return x


def interp(x, xs, ys):
    """piecewise linear interpolation, xs increasing, concrete choice"""
    for i in range(len(xs) - 1):
        if xs[i] < xs[i + 1] and xs[i] <= x and x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (
                (x - xs[i]) / (xs[i + 1] - xs[i]))
    return None


def fresh_module():
    """new instance of the module rf.simple_model without any history"""
    f = rf.simple_model.__file__
    spec = importlib.util.spec_from_file_location('rf._fresh_simple_model', f)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def write_model(fname, z, vp, vs, n=None):
    with open(fname, 'w') as f:
        f.write('#model\n')
        for i in range(len(z)):
            f.write('%r %r %r%s\n' % (z[i], vp[i], vs[i], '' if n is None
                                      else ' %d' % n[i]))

"""C08 Time domain deconvolution solves its damped normal equations"""
import math
import warnings
import numpy as np
from rf import RFStream, deconvolve
from rf.deconvolve import deconv_time
from symrf.runner import Case
from checks.util import T0, trace
from checks.C07 import taper

SRC = [[1., -.5, .25, 2., -1., .5, .75, .125], [3.], [.5, 2.],
       [0., 1., 4., -2., .5], [-2., 0., 0., 1., .5, .25]]


def autocorr(s, num):
    e = sum(v * v for v in s)
    return [sum([s[i] * s[i + j] for i in range(len(s) - j)], 0.) / e
            for j in range(num)]


def crosscorr(r, s, num, lag0):
    """sample j: response against source delayed by lag0 + j"""
    out = []
    for j in range(num):
        v = 0.
        for i in range(len(s)):
            if 0 <= i + j + lag0 < len(r):
                v = v + s[i] * r[i + j + lag0]
        out.append(v)
    return out


def solver(ctx, calls, name='x'):
    """custom solver returning new unknowns"""
    def solve(a, b):
        k = len(calls)
        calls.append((list(a), list(b)))
        x = ctx.array('%s%d_' % (name, k), len(b))
        calls[-1] += (list(x),)
        return x
    return solve


def equations(nr, nss, lengths, shifts, nrsp):
    """matrix and right side for any source and response"""
    def fn(ctx):
        ns = ctx.choice('ns', nss)
        length = ctx.choice('length', lengths)
        shift = ctx.choice('shift', shifts)
        spiking = ctx.real('spiking', 0, 5)
        num = nr if length is None else length
        if (nr - ns + 1 - num) % 2:
            # middle of windows between samples, see alignment
            ctx.assume(False)
        src = ctx.array('s', ns)
        s = list(src)
        ctx.assume(sum(v * v for v in s) > 1e-2)
        rsp = [ctx.array('r%d_' % i, nr) for i in range(nrsp)]
        r = [list(a) for a in rsp]
        calls = []
        kw = {} if length is None else {'length': length}
        out = deconv_time(rsp if nrsp > 1 else rsp[0], src, shift,
                          spiking=spiking, normalize=None,
                          solve_toeplitz=solver(ctx, calls), **kw)
        if nrsp == 1:
            out = [out]
        ctx.same('systems solved', len(calls), nrsp)
        ctx.same('results', len(out), nrsp)
        A = autocorr(s, num)
        A[0] = A[0] + spiking
        lag0 = (nr - ns + 1 - num) // 2 - shift
        for i in range(nrsp):
            a, b, x = calls[i]
            ctx.arr_eq('autocorrelation', a, A)
            ctx.arr_eq('cross-correlation', b, crosscorr(r[i], s, num, lag0))
            ctx.arr_eq('result', out[i], x)
        ctx.arr_eq('source unchanged', src, s)
        for i in range(nrsp):
            ctx.arr_eq('response unchanged', rsp[i], r[i])
    return fn


def alignment(n, srs, wins, onsets):
    """equations set up by deconvolve"""
    def fn(ctx):
        sr = ctx.choice('sr', srs)
        win = ctx.choice('win', wins)
        k = ctx.choice('onset', onsets)
        spiking = ctx.choice('spiking', [None, .5])
        trs = []
        data = {}
        for c in 'LQ':
            d = ctx.array(c, n)
            data[c] = list(d)
            trs.append(trace(d, 'N.S..BH' + c, T0, sr, onset=T0 + k / sr))
        i1 = k + int(math.floor(win[0] * sr + .5))
        i2 = k + int(math.floor(win[1] * sr + .5))
        s = taper([data['L'][i] if 0 <= i < n else 0.
                   for i in range(i1, i2 + 1)], win[2], sr)
        ctx.assume(sum(v * v for v in s) > 1e-2)
        kw = {} if spiking is None else {'spiking': spiking}
        calls = []
        out = deconvolve.deconvolve(
            RFStream(trs), 'time', winsrc=win, normalize=None,
            solve_toeplitz=solver(ctx, calls), **kw)
        A = autocorr(s, n)
        A[0] = A[0] + (1. if spiking is None else spiking)
        for i, c in enumerate('LQ'):
            a, b, x = calls[i]
            ctx.arr_eq('autocorrelation', a, A)
            # delay time zero at the onset
            ctx.arr_eq('cross-correlation ' + c, b, crosscorr(
                data[c], s, n, i1 - k))
            ctx.arr_eq('result', out[i].data, x)
            ctx.eq('onset', out[i].stats.onset - T0, k / sr)
    return fn


def residual(nr, lengths, shifts, solvers=('scipy', 'toeplitz', None)):
    """result solves the system"""
    def fn(ctx):
        s = ctx.choice('src', SRC)
        length = ctx.choice('length', lengths)
        shift = ctx.choice('shift', shifts)
        spiking = ctx.choice('spiking', [None, .125, 2.])
        num = nr if length is None else length
        if (nr - len(s) + 1 - num) % 2:
            ctx.assume(False)
        name = ctx.choice('solver', solvers)
        kw = {} if length is None else {'length': length}
        if name is not None:
            kw['solve_toeplitz'] = name
        if spiking is not None:
            kw['spiking'] = spiking
        rsp = ctx.array('r', nr)
        r = list(rsp)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            x, = deconv_time([rsp], ctx.arr(s), shift, normalize=None, **kw)
        x = list(x)
        ctx.same('length', len(x), num)
        A = autocorr(s, num)
        A[0] += 1. if spiking is None else spiking
        c = crosscorr(r, s, num, (nr - len(s) + 1 - num) // 2 - shift)
        ctx.arr_eq('normal equations', [
            sum([A[abs(i - j)] * x[j] for j in range(len(x))], 0.)
            for i in range(num)], c, 1e-5)
    return fn


def peak(n, wins):
    """delayed source"""
    def fn(ctx):
        win = ctx.choice('win', wins)
        k = ctx.choice('onset', [n // 2 - 1])
        d = ctx.choice('delay', [0, 1, 3])
        gain = ctx.real('gain', .5, 2)
        i1, i2 = k + win[0], k + win[1]
        L = np.zeros(n)
        L[i1:i2 + 1] = ([2., 1., .5, .25, .125, .25, .125] * 3)[:i2 - i1 + 1]
        Q = np.zeros(n)
        Q[d:] = L[:n - d]
        trs = [trace(L, 'N.S..BHL', T0, 1., onset=T0 + k),
               trace(ctx.arr([v * gain for v in Q]), 'N.S..BHQ', T0, 1.,
                     onset=T0 + k)]
        out = deconvolve.deconvolve(
            RFStream(trs), 'time', winsrc=win, solve_toeplitz='scipy',
            normalize=None)
        for tr, j in zip(out, (k, k + d)):
            for i in range(n):
                if i != j:
                    ctx.true('peak %s %d' % (tr.id, i),
                             ctx.all_of([tr.data[i] < tr.data[j],
                                         tr.data[i] > -1. * tr.data[j]]))
    return fn


ASSUMPTIONS = [
    'real arithmetic instead of floating point (tolerance 1e-6 of the '
    'scale of the inputs)',
    'solvers of scipy and toeplitz package solve the system they are '
    'given']


def cases(tier):
    c = [Case('equations', equations(4, [1, 2, 3, 4, 5, 7],
                                     [None, 2, 3, 6, 9],
                                     [-3, -1, 0, 1, 2, 5], 1),
              'response of 4 samples, sources of 1 to 7 samples, results of '
              '2 to 9 samples, shifts -3 to 5'),
         Case('equations of three', equations(3, [3, 5], [None, 5],
                                              [-1, 0, 3], 3),
              '3 responses of 3 samples'),
         Case('alignment', alignment(6, [1., 2.], [
              (-1, 1, 0), (-1, 2, 1), (0, 2, 0), (0, 3, 1), (1, 2, 0),
              (-2, -1, 0), (-3, 0, 0), (-2, 4, 1)], [1, 3]),
              '6 samples at 1 and 2 Hz, 8 windows'),
         Case('window between samples', alignment(6, [2., 100.], [
              (-.79, .56, 0), (-.29, .02, 0), (-.57, .28, 0)], [3]),
              '6 samples at 2 and 100 Hz, 3 windows'),
         Case('residual', residual(4, [None, 2, 7], [-2, 0, 1]),
              'response of 4 samples, 5 sources, results of 2 to 7 samples'),
         Case('peak', peak(12, [(0, 3, 0), (0, 2, 0), (-1, 2, 0),
                                (1, 4, 0), (1, 3, 0), (-4, -1, 0),
                                (-3, 0, 0)]),
              '12 samples, 7 windows')]
    if tier == 'thorough':
        c += [Case('equations long', equations(
                  9, [1, 2, 5, 8, 9, 10, 16], [None, 1, 4, 8, 12, 15],
                  [-9, -4, -1, 0, 1, 3, 8], 2), time=400),
              Case('alignment long', alignment(12, [1., 2., 5.], [
                  (-1, 1, 0), (-1, 2, 1), (0, 2, 0), (0, 3, 1), (1, 2, 0),
                  (-2, -1, 0), (-3, 0, 0), (-2, 4, 1), (-10, 30, 5)],
                  [0, 3, 6, 11]), time=600),
              Case('residual long', residual(8, [None, 4, 13],
                                             [-6, -2, 0, 1, 5]), time=600)]
    return c

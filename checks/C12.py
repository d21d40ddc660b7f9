"""C12 Deconvolution scales linearly and leaves its inputs alone"""
from rf import RFStream, deconvolve
from rf.deconvolve import (deconv_time, deconv_waterlevel, deconv_iterative,
                           deconv_multitaper)
from symrf.runner import Case
from checks.util import T0, trace
from checks.C08 import autocorr, crosscorr
from checks.C09 import division
from checks.C10 import pursuit
from checks.C11 import NOISE

SRC = [[1., -.5, .25, 2.], [0., 3., 1., 0.], [.5, 2., -1., 4.]]
FIX = [[.5, -1., 2., .25], [1., 0., .5, -3.], [2., 1., 0., -.5]]
LINES = [((1., 2., -1., .5), (0., 1., 0., -1.)),
         ((.25, 0., 3., -2.), (1., 1., 1., 1.))]


def call(method, rsp, src, **kw):
    """results of deconvolution as they are returned"""
    if method == 'time':
        return deconv_time(rsp, src, 1, solve_toeplitz='scipy', **kw)
    if method == 'waterlevel':
        return deconv_waterlevel(rsp, src, 2., .1, tshift=1., **kw)
    return deconv_iterative(rsp, src, 1., tshift=1., gauss=1., itmax=2,
                            minderr=.5, **kw)[0]


def values(out):
    return [v.real for v in out]


def response(ctx, method, i, n=4):
    """any response, or of a line for iterative method"""
    if method != 'iterative':
        return list(ctx.array('r%d_' % i, n))
    if i > 0:
        return FIX[i][:n]
    a = ctx.real('a', -3, 3)
    ctx.line(a)
    l0, l1 = ctx.choice('line', LINES)
    return [x + a * y for x, y in zip(l0[:n], l1[:n])]


def power(ctx, method, r):
    if method == 'iterative':
        ctx.assume(sum([v * v for v in r], 0.) > .1)


def forms(methods, srcs, n=4):
    """single array, list and tuple"""
    def fn(ctx):
        method = ctx.choice('method', methods)
        s = ctx.choice('src', srcs)
        r = response(ctx, method, 0, n)
        power(ctx, method, r)
        # any maximum is checked in separate cases
        kw = ctx.choice('normalize', [{'normalize': None}] + (
            [{'normalize': 'src'}] if method == 'waterlevel' else []))
        src = ctx.arr(s)
        one = ctx.arr(r)
        a = values(call(method, one, src, **kw))
        single = ctx.arr(r)
        lst = [single]
        b = call(method, lst, src, **kw)
        c = call(method, (ctx.arr(r),), src, **kw)
        ctx.same('results', (len(b), len(c)), (1, 1))
        ctx.arr_eq('list', values(b[0]), a)
        ctx.arr_eq('tuple', values(c[0]), a)
        ctx.true('list unchanged', len(lst) == 1 and lst[0] is single)
        ctx.arr_eq('array unchanged', one, r)
        ctx.arr_eq('array in list unchanged', single, r)
        ctx.arr_eq('source unchanged', src, s)
    return fn


def own(methods, srcs, nums):
    """each result depends on its own response only"""
    def fn(ctx):
        method = ctx.choice('method', methods)
        s = ctx.choice('src', srcs)
        num = ctx.choice('number', nums)
        # position of the first response
        k = ctx.choice('position', list(range(num)))
        r = [response(ctx, method, i) for i in range(num)]
        r = r[1:k + 1] + r[:1] + r[k + 1:]
        for x in r:
            power(ctx, method, x)
        src = ctx.arr(s)
        rsp = [ctx.arr(x) for x in r]
        before = list(rsp)
        out = call(method, rsp, src, normalize=None)
        ctx.same('results', len(out), num)
        for i in range(num):
            alone = call(method, ctx.arr(r[i]), ctx.arr(s), normalize=None)
            ctx.arr_eq('result %d' % i, values(out[i]), values(alone))
            ctx.true('same array %d' % i, rsp[i] is before[i])
            ctx.arr_eq('response unchanged %d' % i, rsp[i], r[i])
        ctx.arr_eq('source unchanged', src, s)
    return fn


def proportional(methods, srcs):
    """gain of a response"""
    def fn(ctx):
        method = ctx.choice('method', methods)
        s = ctx.choice('src', srcs)
        g = ctx.real('gain', -4, 4)
        if method == 'iterative':
            ctx.assume(ctx.any_of([g > .1, g < -.1]))
            ctx.line(g)
            r = ctx.choice('response', FIX)
        else:
            r = list(ctx.array('r', 4))
        a = call(method, ctx.arr(r), ctx.arr(s), normalize=None)
        b = call(method, ctx.arr([g * v for v in r]), ctx.arr(s),
                 normalize=None)
        ctx.arr_eq('result', values(b), [g * v for v in values(a)], 1e-5)
    return fn


def normalized(methods, srcs, nums):
    """largest amplitude is one, one common factor, common gain cancels"""
    def fn(ctx):
        method = ctx.choice('method', methods)
        s = ctx.choice('src', srcs)
        num = ctx.choice('number', nums)
        sel = ctx.choice('normalize', ['default'] + list(range(num)))
        g = ctx.real('gain', .25, 4)
        f = [1.] + [ctx.real('f%d' % i, .5, 2) for i in range(1, num)]
        if method == 'iterative':
            ctx.fork_max()
        r = [[v * f[i] for v in FIX[i]] for i in range(num)]
        kw = {} if sel == 'default' else {'normalize': sel}
        ref = 0 if sel == 'default' else sel
        src = ctx.arr(s)
        form = ctx.choice('form', ['list', 'array'] if num == 1 else ['list'])
        a = [ctx.arr(x) for x in r]
        b = [ctx.arr([g * v for v in x]) for x in r]
        out = call(method, a if form == 'list' else a[0], src, **kw)
        out2 = call(method, b if form == 'list' else b[0], src, **kw)
        plain = call(method, [ctx.arr(x) for x in FIX[:num]], src,
                     normalize=None)
        if form == 'array':
            out, out2 = [out], [out2]
        # without symbolic gains
        base = [float(v) for v in values(plain[ref])]
        top = max(base) if method == 'waterlevel' else \
            max(abs(v) for v in base)
        if top < 1e-3:
            ctx.assume(False)
        for i in range(num):
            want = [v * (f[i] / (f[ref] * top)) for v in values(plain[i])]
            ctx.arr_eq('result %d' % i, values(out[i]), want, 1e-5)
            ctx.arr_eq('common gain %d' % i, values(out2[i]), want, 1e-5)
            ctx.arr_eq('response unchanged', a[i], r[i])
        ctx.arr_eq('source unchanged', src, s)
    return fn


def largest(methods, srcs, sels):
    """largest amplitude of any response is one"""
    def fn(ctx):
        method = ctx.choice('method', methods)
        s = ctx.choice('src', srcs)
        sel = ctx.choice('normalize', sels)
        num = sel + 1
        ctx.fork_max()
        r = [FIX[i][:3] for i in range(num)]
        l0, l1 = ctx.choice('line', LINES)
        a = ctx.real('a', -3, 3)
        ctx.line(a)
        r[sel] = [x + a * y for x, y in zip(l0[:3], l1[:3])]
        power(ctx, method, r[sel])
        rsp = [ctx.arr(x) for x in r]
        plain = [values(x) for x in
                 call(method, rsp, ctx.arr(s), normalize=None)]
        best = 0
        amp = abs if method != 'waterlevel' else (lambda v: v)
        for i in range(1, len(plain[sel])):
            if amp(plain[sel][i]) > amp(plain[sel][best]):
                best = i
        top = amp(plain[sel][best])
        ctx.assume(top > .05)
        out = call(method, rsp, ctx.arr(s), normalize=sel)
        for i in range(num):
            ctx.arr_eq('result %d' % i, values(out[i]),
                       [v / top for v in plain[i]], 1e-5)
            ctx.arr_eq('response unchanged', rsp[i], r[i])
    return fn


def multitaper(ctx):
    """inputs are not modified"""
    s = SRC[ctx.choice('src', [0, 2])]
    rsp = [ctx.array('r%d_' % i, 12) for i in range(2)]
    r = [list(a) for a in rsp]
    nse = [NOISE[i:i + 8] for i in range(2)]
    n = [ctx.arr(x) for x in nse]
    src = ctx.arr(s)
    deconv_multitaper(rsp, src, n, 1., -1., K=2, tband=1.5, T=4., olap=.5,
                      normalize=None)
    ctx.same('number', (len(rsp), len(n)), (2, 2))
    for i in range(2):
        ctx.arr_eq('response unchanged', rsp[i], r[i])
        ctx.arr_eq('noise unchanged', n[i], nse[i])
    ctx.arr_eq('source unchanged', src, s)


def stream(methods, orders):
    """gains of components of a stream"""
    def fn(ctx):
        method = ctx.choice('method', methods)
        comps = ctx.choice('components', orders)
        norm = ctx.choice('normalize', ['default', None])
        form = ctx.choice('via', ['function', 'method'])
        g = [ctx.real('g' + c, .25, 4) for c in 'LQT']
        kw = {} if norm == 'default' else {'normalize': None}
        kw['winsrc'] = (-1, 2, 0)
        if method == 'time':
            kw['solve_toeplitz'] = 'scipy'
        elif method == 'iterative':
            kw.update(itmax=2, minderr=.5)
            ctx.fork_max()
        base = dict(L=[1., -.5, .25, 2., .5], Q=[.5, 1., 0., -2., 1.],
                    T=[0., 1., 2., 0., .25])

        def run(gain):
            trs = [trace(ctx.arr([gain[c] * v for v in base[c]]),
                         'N.S..BH' + c, T0, 1., onset=T0 + 1)
                   for c in comps]
            st = RFStream(trs)
            if form == 'method':
                return st.deconvolve(method, **kw)
            return deconvolve.deconvolve(st, method, **kw)
        ones = dict.fromkeys('LQT', 1.)
        plain = run(ones)
        gq = dict(ones, Q=g[1], T=g[2])
        out = run(gq)
        for tr, c in zip(out, comps):
            ctx.same('id', tr.id, 'N.S..BH' + c)
            want = [gq[c] * v for v in plain[comps.index(c)].data]
            ctx.arr_eq('result ' + c, tr.data, want, 1e-5)
        if norm is None:
            # values of the formulas
            src, tshift = base['L'][:4], 1.
            for tr, c in zip(plain, comps):
                if method == 'time':
                    A = autocorr(src, 5)
                    A[0] += 1.
                    x = [float(v) for v in tr.data]
                    want = crosscorr(base[c], src, 5, -1)
                    got = [sum(A[abs(i - j)] * x[j] for j in range(5))
                           for i in range(5)]
                    ctx.arr_eq('not normalized ' + c, got, want, 1e-6)
                    continue
                if method == 'waterlevel':
                    want = division(base[c], src, 5, 1., .05, .5, tshift, 5)
                else:
                    want = pursuit(ctx, base[c], src, 1., tshift, .5, 2, .5,
                                   False)[0]
                ctx.arr_eq('not normalized ' + c, tr.data, want, 1e-6)
        if norm == 'default':
            ctx.eq('maximum of source', max(
                float(v) for v in plain[comps.index('L')].data), 1., 1e-6)
            # gain of all components
            out = run(dict.fromkeys('LQT', g[0]))
            if method == 'iterative' or method == 'waterlevel':
                for tr, tr2 in zip(out, plain):
                    ctx.arr_eq('common gain', tr.data, list(tr2.data), 1e-5)
    return fn


METHODS = ['time', 'waterlevel', 'iterative']


ASSUMPTIONS = [
    'real arithmetic instead of floating point (tolerance 1e-6 of the '
    'scale of the inputs)',
    'as for C08-C11']


def cases(tier):
    c = [Case('call forms', forms(METHODS, SRC[:2]),
              '4 samples, 2 sources, 3 methods'),
         Case('own response', own(METHODS, SRC[2:], [2, 3]),
              '2 or 3 responses of 4 samples'),
         Case('gain', proportional(METHODS, SRC[:2]), '4 samples, any gain'),
         Case('normalization', normalized(METHODS, SRC[:1], [1, 2, 3]),
              '1 to 3 responses with any gain'),
         Case('largest amplitude', largest(METHODS, SRC[:1], [0, 1]),
              'responses of 3 samples with one parameter'),
         Case('multitaper', multitaper, '2 responses of 12 samples'),
         Case('stream', stream(METHODS, ['LQT', 'QTL']),
              '3 components of 5 samples with any gain')]
    if tier == 'thorough':
        c += [Case('own response long', own(METHODS, SRC, [1, 2, 3]),
                   time=600),
              Case('normalization long', normalized(METHODS, SRC, [1, 2, 3]),
                   time=600),
              Case('largest amplitude long', largest(METHODS, SRC, [0, 1, 2]),
                   time=600)]
    return c

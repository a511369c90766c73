"""C19 noise models: one spectrum, one integral, whatever the representation, band or frequencies asked for."""
import os
import warnings

import numpy as np
import pandas as pd
import gemlog
from gemlog import gem_noise, ims_noise

import boot
from mon import Check, CaseSkip, pick

D = os.path.join(boot.REPO, 'gemlog', 'data', 'noise')
IMS = {'low': 1, 'min': 1, 'LOW': 1, 'Min': 1, 'med': 2, 'medium': 2, 'Med': 2, 'MEDIUM': 2, 'high': 3, 'hi': 3, 'max': 3,
       'High': 3}
VERSIONS = ['1.0', '0.98', '0.97', '1.01', '1.10', '2.0', 1.0, 0.98]
TYPES = ['power', 'amp', 'dB', 'amplitude', 'Power', 'AMP', 'db', 'DB']


def tables():
    try:
        g = np.loadtxt(os.path.join(D, 'Gem_v0.98_Noise_spec.txt'), delimiter=',', skiprows=1)
        i = np.loadtxt(os.path.join(D, 'IMSNOISE_MIN_MED_MAX.txt'))
    except OSError as e:
        raise CaseSkip('noise tables are elsewhere: %s' % e)
    return g, i


def models(rng):
    g, i = tables()
    v = VERSIONS[int(rng.integers(len(VERSIONS)))]
    out = [('gem', lambda **k: gem_noise(version=v, **k), g[:, 0], g[:, 1] ** 2)]
    for n in (1, 2, 3):
        names = [a for a in IMS if IMS[a] == n]
        m = names[int(rng.integers(len(names)))]
        out.append((m, lambda m=m, **k: ims_noise(model=m, **k), i[:, 0], 10 ** i[:, n]))
    return out


def conv(p, ty):
    p = np.asarray(p, float)
    with np.errstate(all='ignore'):
        return p if ty.lower() == 'power' else np.sqrt(p) if ty.lower().startswith('amp') else 10 * np.log10(p)


def same(a, b, ty, rel):
    """a, b in representation ty; rel is a tolerance on the power"""
    a, b = np.atleast_1d(np.asarray(a, float)), np.atleast_1d(np.asarray(b, float))
    if a.shape != b.shape or np.any(np.isnan(a) != np.isnan(b)):
        return False
    ok = ~np.isnan(a)
    if ty.lower() == 'db':
        return bool(np.all(np.abs(a - b)[ok] <= 10 * np.log10(1 + rel)))
    return bool(np.all(np.abs(a - b)[ok] <= rel * np.abs(b)[ok]))


def call(ctx, f, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return ctx.must('failed', f, **k)


def integral(ctx, f, tab, a, b):
    """integral of the returned spectrum itself: Simpson on every interval of the table (exact for a cubic)"""
    k = np.r_[a, tab[(tab > a) & (tab < b)], b]
    m = (k[1:] + k[:-1]) / 2
    x = np.sort(np.r_[k, m])
    y = np.asarray(call(ctx, f, freq=x, spectype='power')['spectrum'], float)
    return float(np.sum(np.diff(k) / 6 * (y[:-2:2] + 4 * y[1::2] + y[2::2])))


def case_spectra(ctx):
    rng = ctx.rng
    for rep in range(pick(25, 120)):
        for name, f, tf, tp in models(rng):
            ty = TYPES[int(rng.integers(len(TYPES)))]
            lo, hi = tf[0], tf[-1]
            ctx.sig(name, ty)
            # the table itself
            d = call(ctx, f, spectype=ty)
            ctx.check(np.allclose(np.asarray(d['freqs'], float), tf, rtol=1e-9), 'default-freqs', '%s: default frequencies differ from the table' % name)
            ctx.check(same(d['spectrum'], conv(tp, ty), ty, 1e-6), 'through-table', '%s %s: default spectrum is not the tabulated model' % (name, ty))
            ctx.obs('table_points', len(tf))
            sub = rng.choice(len(tf), int(rng.integers(1, 30)), replace=False)      # any order
            d = call(ctx, f, freq=tf[sub], spectype=ty)
            ctx.check(same(d['spectrum'], conv(tp[sub], ty), ty, 1e-6), 'through-table', '%s %s: spectrum at table frequencies %s is not the table' % (name, ty, tf[sub][:4]))
            # one spectrum in every representation, for any frequency vector
            n = int(rng.integers(1, 60))
            fr = rng.uniform(lo, hi, n) if rng.random() < .5 else np.exp(rng.uniform(np.log(max(lo, 1e-3)), np.log(hi), n))
            if rng.random() < .3:
                fr = np.sort(fr)
            outside = np.zeros(n, bool)
            if rng.random() < .5:
                w = rng.random(n) < .3
                fr[w] = np.where(rng.random(w.sum()) < .5, hi * rng.uniform(1.0001, 9, w.sum()), lo - rng.uniform(1e-4, 3, w.sum()))
                outside = w
            res = {t: np.asarray(call(ctx, f, freq=fr, spectype=t)['spectrum'], float) for t in ('power', 'amp', 'dB')}
            p = res['power']
            ctx.obs('frequencies', n)
            ctx.check(np.array_equal(np.isnan(p), outside), 'extrapolated', '%s: spectrum defined at %s although the table covers %g-%g Hz' % (
                name, fr[np.isnan(p) != outside][:3], lo, hi))
            ctx.check(np.all(p[~outside] > 0), 'positive', '%s: power not positive at %s' % (name, fr[~outside][~(p[~outside] > 0)][:3]))
            ctx.check(same(res['amp'], conv(p, 'amp'), 'amp', 1e-9), 'types', '%s: amplitude squared is not power' % name)
            ctx.check(same(res['dB'], conv(p, 'dB'), 'dB', 1e-9), 'types', '%s: dB is not 10 log10 of power' % name)
            ctx.check(same(call(ctx, f, freq=fr, spectype=ty)['spectrum'], conv(p, ty), ty, 1e-9), 'types', '%s: spectype %r differs' % (name, ty))
            j = int(rng.integers(n))
            one = call(ctx, f, freq=[float(fr[j])], spectype='power')['spectrum']
            ctx.check(same(one, [p[j]], 'power', 1e-9), 'frequency-vector', '%s: spectrum at %g Hz depends on the other frequencies' % (name, fr[j]))
            # near the table between its points
            g = fr[~outside & (fr > 0)]
            if len(g):
                i = np.clip(np.searchsorted(tf, g), 1, len(tf) - 1)
                a, b = np.minimum(tp[i - 1], tp[i]), np.maximum(tp[i - 1], tp[i])
                q = p[~outside & (fr > 0)]
                ctx.check(np.all((q > a / 5) & (q < b * 5)), 'between-points', '%s: spectrum far from the neighbouring table points near %s' % (
                    name, g[~((q > a / 5) & (q < b * 5))][:3]))
            for t, u in (('power', 'Pa^2/Hz'), ('amp', 'Pa/sqrt(Hz)')):
                ctx.check(call(ctx, f, spectype=t)['spectrum_units'] == u, 'units', '%s %s units' % (name, t))


def case_integrals(ctx):
    rng = ctx.rng
    for rep in range(pick(30, 150)):
        for name, f, tf, tp in models(rng):
            lo, hi = tf[0], tf[-1]
            if rng.random() < .5:
                e = np.sort(rng.uniform(lo, hi, 3))
            else:
                e = np.sort(np.exp(rng.uniform(np.log(max(lo, 1e-3)), np.log(hi), 3)))
            if rng.random() < .2:
                e[0] = lo
            if rng.random() < .2:
                e[2] = hi
            if rng.random() < .2:
                e[1] = tf[int(np.argmin(abs(tf - e[1])))]
            a, b, c = map(float, e)
            if not (b - a > 1e-4 and c - b > 1e-4):
                continue
            ctx.sig(name, round(np.log10(a + 1e-3), 1), round(np.log10(c), 1))
            n = {(x, y): float(call(ctx, f, freq_min=x, freq_max=y)['noise']) for x, y in ((a, b), (b, c), (a, c))}
            ctx.obs('bands', 3)
            for (x, y), v in n.items():
                w = integral(ctx, f, tf, x, y)
                ctx.check(abs(v - w) <= 1e-3 * w, 'integral', '%s: noise in %g-%g Hz is %g, the spectrum integrates to %g' % (name, x, y, v, w))
            ctx.check(abs(n[a, b] + n[b, c] - n[a, c]) <= 1e-3 * n[a, c], 'additive', '%s: bands %g-%g-%g give %g + %g, whole band %g' % (
                name, a, b, c, n[a, b], n[b, c], n[a, c]))
            ty = TYPES[int(rng.integers(len(TYPES)))]
            for fr in (None, [1.0, 2.0], rng.uniform(lo, hi, 5), np.array([hi * 3])):
                d = call(ctx, f, freq=fr, freq_min=a, freq_max=c, spectype=ty)
                ctx.check(same(d['noise'], conv(n[a, c], ty), ty, 1e-6), 'noise-types', '%s: noise in %g-%g Hz as %s is %r with freq=%r, %r expected' % (
                    name, a, c, ty, d['noise'], fr, conv(n[a, c], ty)))
                ctx.check(d['freq_min'] == a and d['freq_max'] == c, 'band-reported', '%s: reports band %r-%r' % (name, d['freq_min'], d['freq_max']))
            # outside the table there is no noise figure
            d = call(ctx, f, freq_min=a, freq_max=hi * float(rng.uniform(1.01, 5)))
            ctx.check(np.isnan(d['noise']), 'extrapolated', '%s: noise %r for a band beyond the table' % (name, d['noise']))
            d = call(ctx, f, freq_min=lo - float(rng.uniform(1e-3, 1)), freq_max=c)
            ctx.check(np.isnan(d['noise']), 'extrapolated', '%s: noise %r for a band below the table' % (name, d['noise']))
            d = call(ctx, f, freq=[1.0], spectype=ty)
            ctx.check(np.isnan(d['noise']), 'no-band', '%s: noise %r without a band' % (name, d['noise']))


def case_ordered(ctx):
    rng = ctx.rng
    f = [lambda m=m, **k: ims_noise(model=m, **k) for m in ('low', 'medium', 'high')]
    for rep in range(pick(30, 200)):
        fr = np.sort(rng.uniform(0, 9.99, 400))
        s = [np.asarray(call(ctx, g, freq=fr)['spectrum'], float) for g in f]
        ctx.check(np.all(s[0] <= s[1]) and np.all(s[1] <= s[2]), 'ordered', 'low, medium and high models are not ordered')
        a = float(rng.uniform(0.01, 8))
        b = a + float(rng.uniform(.05, 1.5))
        ty = ['power', 'amp', 'dB'][rep % 3]
        n = [float(call(ctx, g, freq_min=a, freq_max=b, spectype=ty)['noise']) for g in f]
        ctx.check(n[0] <= n[1] <= n[2], 'ordered', 'integrated noise %s in %g-%g Hz not ordered' % (n, a, b))
        ctx.obs('orderings', 2)
        ctx.sig(round(a), ty)
    for a in IMS:
        d = call(ctx, lambda **k: ims_noise(model=a, **k), freq=[0.2, 1.0, 5.0])
        ref = call(ctx, f[IMS[a] - 1], freq=[0.2, 1.0, 5.0])
        ctx.check(same(d['spectrum'], ref['spectrum'], 'power', 1e-12), 'alias', 'model %r' % a)
    # defaults: the low model, power
    d, ref = call(ctx, ims_noise), call(ctx, f[0])
    ctx.check(same(d['spectrum'], ref['spectrum'], 'power', 1e-12), 'alias', 'ims_noise() is not the low model')
    for g, k in ((ims_noise, dict(model='none')), (ims_noise, dict(spectype='volt')), (gem_noise, dict(spectype='volt')), (gem_noise, dict(version='0.9'))):
        r, exc = ctx.call(g, **k)
        ctx.check(exc is not None, 'accepted', '%s(%s) returned a result' % (g.__name__, k))


def make():
    c = Check('C19', 'noise models: representation, interpolation through the table, exact and additive band integrals, ordering',
              need=['frequencies', 'bands', 'orderings', 'assertions'],
              assumptions=['the tables under gemlog/data/noise are the tabulated models'])
    for i in range(pick(4, 8)):
        c.add('spectra-%d' % i, case_spectra)
        c.add('integrals-%d' % i, case_integrals)
    c.add('ordered', case_ordered)
    return c

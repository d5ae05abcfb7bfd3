"""
Builders of the simulated world: images, observations and collections from
small JSON descriptions.  Pixel data are rendered here with plain numpy, not by
the package under test.
"""
import numpy as np

FOUR_PI_SQ = None


def jac_spec(rng, dim=None, simple=False):
    """
    a random wcs: mostly diagonal, sometimes sheared/rotated, sometimes a flip
    """
    scale = rng.choice([1.0, 0.263, 0.2, 0.5])
    kind = 'diag' if simple else rng.choice(['diag', 'diag', 'full', 'full',
                                             'flip'])
    d = dict(scale=scale, kind=kind,
             off=[round(rng.uniform(-0.6, 0.6), 3),
                  round(rng.uniform(-0.6, 0.6), 3)])
    if kind != 'diag':
        d['g1'] = round(rng.uniform(-0.1, 0.1), 3)
        d['g2'] = round(rng.uniform(-0.1, 0.1), 3)
        d['theta'] = round(rng.uniform(-1, 1), 3)
    return d


def jac_matrix(d):
    """dv/drow, dv/dcol, du/drow, du/dcol"""
    s = d['scale']
    m = np.array([[1.0, 0.0], [0.0, 1.0]]) * s
    if d['kind'] != 'diag':
        c, n = np.cos(d['theta']), np.sin(d['theta'])
        rot = np.array([[c, n], [-n, c]])
        sh = np.array([[1 + d['g1'], d['g2']], [d['g2'], 1 - d['g1']]])
        m = sh.dot(rot) * s
        if d['kind'] == 'flip':
            m[1] *= -1
    return m


def make_jac(d, dims):
    import ngmix
    m = jac_matrix(d)
    cen = (np.array(dims) - 1) / 2.0
    row, col = cen[0] + d['off'][0], cen[1] + d['off'][1]
    if d['kind'] == 'diag':
        return ngmix.DiagonalJacobian(row=row, col=col, scale=d['scale'])
    return ngmix.Jacobian(row=row, col=col, dvdrow=m[0, 0], dvdcol=m[0, 1],
                          dudrow=m[1, 0], dudcol=m[1, 1])


def vu(d, dims):
    m = jac_matrix(d)
    cen = (np.array(dims) - 1) / 2.0
    r = np.arange(dims[0])[:, None] - (cen[0] + d['off'][0])
    c = np.arange(dims[1])[None, :] - (cen[1] + d['off'][1])
    return m[0, 0] * r + m[0, 1] * c, m[1, 0] * r + m[1, 1] * c


def gauss2d(v, u, T, e1, e2, cv, cu):
    """unit-flux elliptical gaussian, size T = <v^2>+<u^2>"""
    ivv = 0.5 * T * (1 - e1)
    iuv = 0.5 * T * e2
    iuu = 0.5 * T * (1 + e1)
    det = ivv * iuu - iuv ** 2
    dv, du = v - cv, u - cu
    chi2 = (iuu * dv ** 2 + ivv * du ** 2 - 2 * iuv * dv * du) / det
    return np.exp(-0.5 * chi2) / (2 * np.pi * np.sqrt(det))


def render(gal, jd, dims, psf=None):
    """sum of two gaussians (core + wing), optionally psf-convolved"""
    v, u = vu(jd, dims)
    area = abs(np.linalg.det(jac_matrix(jd)))
    out = np.zeros(dims)
    comps = [(0.6, 0.7), (0.4, 1.5)] if gal.get('wing') else [(1.0, 1.0)]
    for f, s in comps:
        T = gal['T'] * s
        M = np.array([[0.5 * T * (1 - gal['e1']), 0.5 * T * gal['e2']],
                      [0.5 * T * gal['e2'], 0.5 * T * (1 + gal['e1'])]])
        if psf is not None:
            Tp = psf['T']
            M = M + np.array(
                [[0.5 * Tp * (1 - psf['e1']), 0.5 * Tp * psf['e2']],
                 [0.5 * Tp * psf['e2'], 0.5 * Tp * (1 + psf['e1'])]])
        TT = M[0, 0] + M[1, 1]
        e1 = (M[1, 1] - M[0, 0]) / TT
        e2 = 2 * M[0, 1] / TT
        out += f * gal['flux'] * gauss2d(
            v, u, TT, e1, e2, gal['cv'], gal['cu']) * area
    return out


def epoch_spec(rng, kind='normal', dims=None, psf_dims=None, flux=None,
               simple=False):
    """JSON description of one epoch"""
    if dims is None:
        n = rng.choice([21, 23, 24, 25, 27])
        dims = [n, n if rng.random() < 0.7 else n + rng.choice([-2, 1, 2])]
        if rng.random() < .025:
            dims = rng.choice([[48, 48], [53, 47], [33, 64], [65, 65]])
    if psf_dims is None:
        n = rng.choice([17, 19, 21] * 13 + [33])
        psf_dims = [n, n]
    jd = jac_spec(rng, simple=simple)
    s = jd['scale']
    ep = dict(
        dims=dims, jac=jd, pdims=psf_dims,
        gal=dict(T=round(s * s * rng.uniform(4, 14), 4),
                 e1=round(rng.uniform(-.3, .3), 3),
                 e2=round(rng.uniform(-.3, .3), 3),
                 flux=flux or rng.choice([30.0, 100.0, 400.0]),
                 cv=round(s * rng.uniform(-.5, .5), 3),
                 cu=round(s * rng.uniform(-.5, .5), 3),
                 wing=rng.random() < 0.5),
        psf=dict(T=round(s * s * rng.uniform(3, 6), 4),
                 e1=round(rng.uniform(-.06, .06), 3),
                 e2=round(rng.uniform(-.06, .06), 3),
                 flux=1.0, cv=0.0, cu=0.0, wing=rng.random() < 0.3),
        noise=rng.choice([0.001, 0.01, 0.05]),
        seed=rng.randrange(1 << 30),
        wt=rng.choice(['flat', 'flat', 'vary', 'holes']),
        planes=[p for p in ('bmask', 'ormask', 'noise', 'mfrac')
                if rng.random() < 0.3],
    )
    if rng.random() < 0.25:
        ep['pjac'] = jac_spec(rng, simple=simple)
        ep['pjac']['scale'] = s
    return ep


def make_epoch(ep, with_psf=True, psf_gmix=False, meta=None):
    """Observation for one epoch"""
    import ngmix
    dims = tuple(ep['dims'])
    rs = np.random.RandomState(ep['seed'])
    jac = make_jac(ep['jac'], dims)
    im = render(ep['gal'], ep['jac'], dims, ep['psf'])
    im = im + rs.normal(scale=ep['noise'], size=dims)
    wt = np.full(dims, 1.0 / ep['noise'] ** 2)
    if ep['wt'] == 'vary':
        wt = wt * rs.uniform(0.5, 1.0, size=dims)
    elif ep['wt'] == 'holes':
        wt[rs.uniform(size=dims) < 0.08] = 0.0
    kw = {}
    if 'bmask' in ep['planes']:
        kw['bmask'] = (rs.uniform(size=dims) < 0.1).astype('i4')
    if 'ormask' in ep['planes']:
        kw['ormask'] = (rs.uniform(size=dims) < 0.1).astype('i4') * 4
    if 'noise' in ep['planes']:
        kw['noise'] = rs.normal(scale=ep['noise'], size=dims)
    if 'mfrac' in ep['planes']:
        kw['mfrac'] = rs.uniform(size=dims) * 0.2
    psf = None
    if with_psf:
        psf = make_psf(ep, rs, psf_gmix)
    return ngmix.Observation(
        im, weight=wt, jacobian=jac, psf=psf,
        meta={'id': ep['seed'] % 1000, 'tags': ['a', {'k': 1}]}
        if meta is None else meta, **kw)


def make_psf(ep, rs, gmix=False):
    import ngmix
    pdims = tuple(ep['pdims'])
    pj = ep.get('pjac', ep['jac'])
    p = dict(ep['psf'])
    pim = render(p, pj, pdims)
    sig = pim.max() * 1.0e-4
    pim = pim + rs.normal(scale=sig, size=pdims)
    gm = None
    if gmix:
        gm = ngmix.GMixModel(
            [0.0, 0.0, 0.0, 0.0, p['T'], 1.0], 'gauss')
    return ngmix.Observation(
        pim, weight=np.full(pdims, 1 / sig ** 2),
        jacobian=make_jac(pj, pdims), gmix=gm, meta={'psfid': ep['seed'] % 77})


def make_obslist(eps, **kw):
    import ngmix
    ol = ngmix.ObsList(meta={'n': len(eps)})
    for ep in eps:
        ol.append(make_epoch(ep, **kw))
    return ol


def make_mbobs(bands, **kw):
    import ngmix
    mb = ngmix.MultiBandObsList(meta={'nb': len(bands)})
    for eps in bands:
        mb.append(make_obslist(eps, **kw))
    return mb

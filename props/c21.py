"""arguments outside the documented range are rejected, arguments inside it are not"""
from sa import terms as t
from sa.scal import Call, sym, rejects
from sa.terms import num

TECHNIQUE = ('Abstract interpretation of every guard on the way to a return (path conditions of all raise statements, helpers included); the '
             'resulting rejection condition is evaluated on one representative of every documented class of invalid argument (in each '
             'position of an array argument) and on valid ones. Nothing from /repo is imported or run.')
SZ = 'geotecha.consolidation.smear_zones'
GOOD = dict(n=11.0, s=3.1, kap=2.2, si=1.8, nflow=1.4, kh=1.0, qw=3.0, H=5.0, sp=1.3)
BAD = {'n': [('n=1', 1), ('n<1', 0.6), ('n<0', -3)], 's': [('s<1', 0.97), ('s<0', -2)], 'kap': [('kap=0', 0), ('kap<0', -1)],
       'nflow': [('nflow=1', 1), ('nflow<1', 0.7)], 'si': [('si<1', 0.9), ('si>n', 11.9)], 'sp': [('spacing=0', 0), ('spacing<0', -2)]}
NEAR = {'n': [('n just below 1', 0.999)], 's': [('s just below 1', 0.999)], 'kap': [('kap just below 0', -0.001)], 'nflow': [('nflow just below 1', 0.999)],
        'si': [('si just below 1', 0.999), ('si just above n', 11.01)], 'sp': [('spacing just below 0', -0.001)]}
for _k, _v in NEAR.items():
    BAD[_k] = BAD[_k] + _v
EDGES = [('close to the limits', dict(n=1.06, s=1.03, kap=1.02, nflow=1.03, si=1.01)), ('kap<1', dict(kap=0.3)), ('kap small', dict(kap=0.02)), ('kap=1', dict(kap=1)), ('s=1', dict(s=1, si=1.0)),
         ('wide', dict(n=80.0, s=30.0, kap=25.0, nflow=4.0, si=60.0))]
SGTN = ('s>n', dict(s=14.0, si=1.5))
ARRAYS = {'mu_ideal': ['n'], 'mu_constant': ['n', 's', 'kap'], 'mu_linear': ['n', 's', 'kap'], 'mu_parabolic': ['n', 's', 'kap'],
          'mu_overlapping_linear': ['n', 's', 'kap'], 'non_darcy_beta_ideal': ['n', 'nflow'], 'non_darcy_beta_constant': ['n', 's', 'kap', 'nflow']}
SCALARS = {'k_linear': ['n', 's', 'kap', 'si'], 'k_parabolic': ['n', 's', 'kap', 'si'], 'k_overlapping_linear': ['n', 's', 'kap', 'si'],
           'u_ideal': ['n', 'si'], 'u_constant': ['n', 's', 'kap', 'si'], 'u_linear': ['n', 's', 'kap', 'si'], 'u_parabolic': ['n', 's', 'kap', 'si']}
NO_S_GT_N = ('mu_overlapping_linear', 'k_overlapping_linear', 'mu_ideal', 'u_ideal', 'non_darcy_beta_ideal', 'non_darcy_beta_constant')


def val(x):
    return t.mpf(x) if not isinstance(x, int) else x


def check(ctx):
    ctx.rule('reject', 'a call with an argument of this class cannot return')
    ctx.rule('accept', 'a call with valid arguments can return')
    ctx.parallel([lambda: arrays(ctx), lambda: scalars(ctx), lambda: piecewise(ctx), lambda: other(ctx)])


def arrays(ctx):
    for f, names in ARRAYS.items():
        for L in (1, 2):
            for pos in range(L):
                args = []
                V = {}
                for nm in names:
                    if L == 1:
                        args.append(sym(nm))
                        V[nm] = val(GOOD[nm])
                    else:
                        args.append([sym('%s%d' % (nm, k)) for k in range(2)])
                        for k in range(2):
                            V['%s%d' % (nm, k)] = val(GOOD[nm] * (1 + k / 50.))
                c = Call(ctx, SZ, f, args)
                if pos == 0:
                    rejects(ctx, 'accept', '%s [valid, %d values]' % (f, L), c, V, False, 'valid arguments are rejected')
                for what, ch in EDGES:
                    if f == 'non_darcy_beta_constant' and ch.get('kap', 1) < 1:
                        continue        # this function documents (in its message) kap>=1
                    V2 = dict(V, **{(nm if L == 1 else '%s%d' % (nm, pos)): val(v) for nm, v in ch.items() if nm in names})
                    rejects(ctx, 'accept', '%s [%s, value %d of %d]' % (f, what, pos + 1, L), c, V2, False, 'valid arguments are rejected')
                for nm in names:
                    key = nm if L == 1 else '%s%d' % (nm, pos)
                    for what, b in BAD[nm]:
                        rejects(ctx, 'reject', '%s [%s, value %d of %d]' % (f, what, pos + 1, L), c, dict(V, **{key: val(b)}), True, 'a result is returned although %s' % what)
                if f not in NO_S_GT_N:
                    key = 's' if L == 1 else 's%d' % pos
                    rejects(ctx, 'reject', '%s [s>n, value %d of %d]' % (f, pos + 1, L), c, dict(V, **{key: val(14.0)}), True, 'a result is returned although s>n')


def scalars(ctx):
    for f, names in SCALARS.items():
        for L in (1, 2):
            sis = [sym('si%d' % k) for k in range(L)]
            c = Call(ctx, SZ, f, [sis if nm == 'si' else sym(nm) for nm in names])
            V = {nm: val(GOOD[nm]) for nm in names if nm != 'si'}
            for k in range(L):
                V['si%d' % k] = val(1.8 + 4 * k)
            rejects(ctx, 'accept', '%s [valid, %d radii]' % (f, L), c, V, False, 'valid arguments are rejected')
            for what, ch in EDGES:
                V2 = dict(V, **{nm: val(v) for nm, v in ch.items() if nm in names and nm != 'si'})
                V2.update({'si%d' % k: val(ch.get('si', 1.8)) for k in range(L)})
                rejects(ctx, 'accept', '%s [%s, %d radii]' % (f, what, L), c, V2, False, 'valid arguments are rejected')
            rejects(ctx, 'accept', '%s [drain face and outer radius, %d radii]' % (f, L), c, dict(V, si0=val(1), **({'si1': V['n']} if L == 2 else {})), False, 'valid arguments are rejected')
            for nm in names:
                if nm == 'si':
                    for k in range(L):
                        for what, b in BAD['si']:
                            rejects(ctx, 'reject', '%s [%s, radius %d of %d]' % (f, what, k + 1, L), c, dict(V, **{'si%d' % k: val(b)}), True, 'a result is returned although %s' % what)
                elif L == 1:
                    for what, b in BAD[nm]:
                        # keep the radius inside the zone so that only this argument is wrong
                        V2 = dict(V, **{nm: val(b)})
                        rejects(ctx, 'reject', '%s [%s]' % (f, what), c, V2, True, 'a result is returned although %s' % what)
            if f not in NO_S_GT_N and L == 1:
                rejects(ctx, 'reject', '%s [s>n]' % f, c, dict(V, s=val(14.0), si0=val(1.5)), True, 'a result is returned although s>n')
    for f in ('mu_well_resistance',):
        c = Call(ctx, SZ, f, [sym('kh'), sym('qw'), sym('n'), sym('H')])
        V = {k: val(GOOD[k]) for k in ('kh', 'qw', 'n', 'H')}
        rejects(ctx, 'accept', f + ' [valid]', c, V, False, 'valid arguments are rejected')
        for what, b in BAD['n']:
            rejects(ctx, 'reject', '%s [%s]' % (f, what), c, dict(V, n=val(b)), True, 'a result is returned although %s' % what)
    for pat in ('Triangle', 'Square', 't', 's'):
        for arr in (False, True):
            c = Call(ctx, SZ, 're_from_drain_spacing', [[sym('sp0'), sym('sp')] if arr else sym('sp')], dict(pattern=pat))
            rejects(ctx, 'accept', 're_from_drain_spacing [%s, %s]' % (pat, arr), c, dict(sp=val(1.3), sp0=val(1.1)), False, 'a valid spacing is rejected')
            for what, b in BAD['sp']:
                rejects(ctx, 'reject', 're_from_drain_spacing [%s, %s, %s]' % (pat, what, arr), c, dict(sp=val(b), sp0=val(1.1)), True, 'a result is returned although %s' % what)
    c = Call(ctx, SZ, 're_from_drain_spacing', [sym('sp')], dict(pattern='Hexagon'))
    rejects(ctx, 'reject', 're_from_drain_spacing [unknown pattern]', c, dict(sp=val(1.3)), True, 'a result is returned for an unknown drain pattern')


def piecewise(ctx):
    good = dict(s0=1.4, s1=3.1, s2=9.0, k0=2.0, k1=1.5, k2=1.1, kz=2.4)
    for f in ('mu_piecewise_constant', 'u_piecewise_constant', 'mu_piecewise_linear', 'u_piecewise_linear', 'non_darcy_beta_piecewise_constant', 'non_darcy_u_piecewise_constant'):
        linear = 'linear' in f
        ss, ks = [sym('s%d' % k) for k in range(3)], [sym('k%d' % k) for k in range(3)]
        if linear:
            ss, ks = [t.ONE] + ss, [sym('kz')] + ks
        pre = [ss, ks]
        V = {k: val(v) for k, v in good.items()}
        if '_u_' in '_' + f:
            pre.append([sym('si0'), sym('si1')])
            V.update(si0=val(1.2), si1=val(5.0))
        kw = {}
        if 'darcy' in f:
            kw = dict(nflow=sym('nflow'))
            V['nflow'] = val(1.4)
        from sa import smz
        c = Call(ctx, SZ, f, pre, kw, hooks=smz.gdarcy())
        rejects(ctx, 'accept', f + ' [valid]', c, V, False, 'valid arguments are rejected')
        for what, ch in (('small kap', dict(k0=0.02, k1=0.3, k2=0.05, kz=0.01)), ('kap=1', dict(k0=1, k1=1, k2=1, kz=1)), ('thin zones', dict(s0=1.01, s1=1.02, s2=1.03, si0=1, si1=1.025, nflow=1.02)),
                         ('nflow close to 1', dict(nflow=1.01)), ('radii at the limits', dict(si0=1, si1=9.0))):
            rejects(ctx, 'accept', '%s [%s]' % (f, what), c, dict(V, **{a: val(b) for a, b in ch.items() if a in V}), False, 'valid arguments are rejected')
        T = lambda what, **k: rejects(ctx, 'reject', '%s [%s]' % (f, what), c, dict(V, **{a: val(b) for a, b in k.items()}), True, 'a result is returned although %s' % what)
        T('first s < 1', s0=0.8)
        T('s decreases', s1=1.2, si1=1.3)
        T('last s decreases', s2=2.5, si1=1.3)
        for k in range(3):
            T('kap%d = 0' % k, **{'k%d' % k: 0})
            T('kap%d < 0' % k, **{'k%d' % k: -0.5})
            T('kap%d just below 0' % k, **{'k%d' % k: -0.001})
        if linear:
            T('first kap < 0', kz=-1.0)
        if 'si0' in V:
            T('first si just below 1', si0=0.999)
            T('last si just above n', si1=9.01)
            T('first si < 1', si0=0.9)
            T('last si < 1', si1=0.9)
            T('first si > n', si0=9.5)
            T('last si > n', si1=9.5)
        if 'darcy' in f:
            T('nflow just below 1', nflow=0.999)
            T('nflow = 1', nflow=1)
            T('nflow < 1', nflow=0.5)
        for what, a, b in (('fewer kap than s', ss, ks[:-1]), ('fewer s than kap', ss[:-1], ks)):
            c2 = Call(ctx, SZ, f, [a, b] + pre[2:], kw, hooks=smz.gdarcy())
            rejects(ctx, 'reject', '%s [%s]' % (f, what), c2, V, True, 'a result is returned although there are %s' % what)
        c3 = Call(ctx, SZ, f, [ss[:-1], ks[:-1]] + pre[2:], dict(kw, n=sym('s2'), kap_m=sym('k2')), hooks=smz.gdarcy())
        rejects(ctx, 'accept', f + ' [valid, n and kap_m]', c3, V, False, 'valid arguments are rejected')
        rejects(ctx, 'reject', f + ' [n below s]', c3, dict(V, s2=val(2.0), si1=val(1.5)), True, 'a result is returned although n is below the last s')
        rejects(ctx, 'reject', f + ' [kap_m = 0]', c3, dict(V, k2=0), True, 'a result is returned although kap_m = 0')


def other(ctx):
    INTEG = 'geotecha.speccon.integrals'
    for b in (0, 1):
        c = Call(ctx, INTEG, 'm_from_sin_mx', [sym('i')], dict(boundary=b))
        rejects(ctx, 'accept', 'm_from_sin_mx [boundary=%d]' % b, c, {}, False, 'a valid boundary condition is rejected')
    for b in (2, -1):
        c = Call(ctx, INTEG, 'm_from_sin_mx', [sym('i')], dict(boundary=b))
        rejects(ctx, 'reject', 'm_from_sin_mx [boundary=%d]' % b, c, {}, True, 'an eigenvalue is returned for an unknown boundary condition')
    PW = 'geotecha.piecewise.piecewise_linear_1d'
    q = [sym('q')]
    x, y, y2 = ([sym('%s%d' % (a, k)) for k in range(3)] for a in ('x', 'y', 'w'))
    V = {'%s%d' % (a, k): val(1.0 + k + i / 7.) for i, a in enumerate('xyw') for k in range(3)}
    V['q'] = val(1.5)
    V['r'] = val(2.2)
    for f, extra in (('interp_x_y', [q]), ('integrate_x_y_between_xi_xj', [q, [sym('r')]]), ('avg_x_y_between_xi_xj', [q, [sym('r')]])):
        c = Call(ctx, PW, f, [x, y] + extra)
        rejects(ctx, 'accept', f + ' [valid]', c, V, False, 'valid arguments are rejected')
        for what, a, b in (('more x than y', x, y[:2]), ('more y than x', x[:2], y)):
            c = Call(ctx, PW, f, [a, b] + extra)
            rejects(ctx, 'reject', '%s [%s]' % (f, what), c, V, True, 'a result is returned although there are %s' % what)
    x1, x2 = x[:2], x[1:]
    for f, extra in (('interp_x1_x2_y1_y2', [q]), ('integrate_x1_x2_y1_y2_between_xi_xj', [q, [sym('r')]]), ('avg_x1_x2_y1_y2_between_xi_xj', [q, [sym('r')]])):
        c = Call(ctx, PW, f, [x1, x2, y[:2], y2[:2]] + extra)
        rejects(ctx, 'accept', f + ' [valid]', c, V, False, 'valid arguments are rejected')
        for what, a in (('x1 is shorter', [x1[:1], x2, y[:2], y2[:2]]), ('x2 is shorter', [x1, x2[:1], y[:2], y2[:2]]), ('y1 is shorter', [x1, x2, y[:1], y2[:2]]), ('y2 is shorter', [x1, x2, y[:2], y2[:1]])):
            c = Call(ctx, PW, f, a + extra)
            rejects(ctx, 'reject', '%s [%s]' % (f, what), c, V, True, 'a result is returned although %s than the others' % what)
        c = Call(ctx, PW, f, [x1, [sym('gap'), x[2]], y[:2], y2[:2]] + extra)
        rejects(ctx, 'reject', '%s [gap between segments]' % f, c, dict(V, gap=val(1.7)), True, 'a result is returned although the segments do not join')

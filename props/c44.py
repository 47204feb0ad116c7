"""moving loads: positions, times and spectral form of the same motion"""
from fractions import Fraction
from sa import terms as t
from sa.scal import Inst, A, same, sym, wrap, rejects
from sa.terms import num
from sa.front import Gate
from props.c32 import near, add, sub, mul, div, diff, neg, pw, fn, ZERO, ONE, x
from props.c43 import items, rows, SM, beam, interp

TECHNIQUE = ('Value-graph (global value numbering by random interpretation): the methods of the moving load groups are abstracted to gated terms in axle positions, loads, velocity, start time, '
             'start position and length, and compared with uniform motion that begins at the start position at the start time. Nothing from /repo is executed.')
N = 3
BASE = dict(a0=0.0, a1=-0.4, a2=-1.1, p0=1.4, p1=0.8, p2=2.1, off=0.2, L=2.6, t0=0.7, x0=0.5, tq=1.9, X=1.3, v=1.1, w=0.6, M=1.7, s=0.3, y=0.9)


def check(ctx):
    ctx.rule('position', 'an axle is at its start position plus its (for a group moving left, mirrored) coordinate plus velocity times elapsed time')
    ctx.rule('on the beam', 'a load acts exactly from when its axle has reached the start position until it has travelled the length')
    ctx.rule('spectral form', 'the load histories and the frequency and phase describe the same positions and durations')
    ctx.rule('passing', 'the position of an axle at the time it passes a point is that point')
    ctx.rule('under the loads', 'the deflection under a load is that at its position, none outside the limits')
    ctx.rule('domain', 'loads that do not move are refused where they have no meaning')
    ctx.assumptions += ['arithmetic is over the reals', 'three axles (the code is uniform in the number)']
    th = []
    for sign in (1, -1):
        for off in (True, False):
            th.append(lambda a=(sign, off): motion(ctx, *a))
        th.append(lambda sign=sign: convert(ctx, sign))
        th.append(lambda sign=sign: under(ctx, sign))
    th += [lambda: reset(ctx), lambda: domain(ctx)]
    ctx.parallel(th)


def group(ctx, **kw):
    d = dict(x=A([sym('a%d' % i) for i in range(N)]), p=A([sym('p%d' % i) for i in range(N)]))
    d.update(kw)
    return Inst(ctx, SM, 'MovingPointLoads', [], {k: v for k, v in d.items() if v is not None})


def axle(i, sign, off=True):
    q = add(sym('a%d' % i), sym('off')) if off else sym('a%d' % i)
    return q if sign > 0 else neg(q)


def vals(sign, **k):
    return near(dict(BASE, **dict({q: sign * BASE[q] for q in ('v', 'w', 's')}, **k)))


def motion(ctx, sign, off):
    """own motion of the group; free functions with another motion"""
    full = dict(v=sym('v'), L=sym('L'), t0=sym('t0'), x0=sym('x0'))
    if off:
        full['offset'] = sym('off')
    T = 'MovingPointLoads %s%s' % ('to the right' if sign > 0 else 'to the left', '' if off else ', no offset')
    for given in ((), ('t0',), ('x0',), ('t0', 'x0')) if off else ((),):
        m = group(ctx, **{k: v for k, v in full.items() if k not in given})
        t0 = ZERO if 't0' in given else sym('t0')
        x0 = ZERO if 'x0' in given else sym('x0')
        D = ' (default %s)' % ', '.join(given) if given else ''
        tq = sym('tq')
        c = m.call('point_loads_on_beam', tq)
        pos = [add(x0, ZERO if sign > 0 else sym('L'), axle(i, sign, off), mul(sym('v'), sub(tq, t0))) for i in range(N)]
        # elapsed travel from the start position
        for tv in (-1.0, 0.9, 1.6, 2.2, 3.1, 9.0):
            V = vals(sign, tq=tv)
            for i in range(N):
                gone = add(axle(i, sign, off), mul(sym('v'), sub(tq, t0)))
                gone = gone if sign > 0 else neg(gone)
                on = t.and_(t.le(ZERO, gone), t.le(gone, sym('L')))
                same(ctx, 'on the beam', '%s load %d at %s%s' % (T, i, tv, D), c.where, c.at(i, of=c.item(1)), t.ite(on, sym('p%d' % i), ZERO), 'the load does not act exactly while it is on the beam', values=V)
                same(ctx, 'position', '%s axle %d at %s%s' % (T, i, tv, D), c.where, c.at(i, of=c.item(0)), pos[i], 'the axle is not at start position + coordinate + v*(t-t0)', values=V)
        V = vals(sign)
        for i in range(N):
            s = sub(t0, div(axle(i, sign, off), sym('v')))
            same(ctx, 'on the beam', '%s start %d%s' % (T, i, D), m.where, m.attr('start_time').at(i), s, 'the axle does not enter then', values=V, vary=['off', 't0'])
            same(ctx, 'on the beam', '%s end %d%s' % (T, i, D), m.where, m.attr('end_time').at(i), add(s, div(sym('L'), fn('abs', sym('v')))), 'the axle does not leave then', values=V, vary=['off', 't0', 'L'])
        b = m.call('time_axles_pass_beam_point', sym('X'))
        for i in range(N):
            same(ctx, 'passing', '%s beam point, axle %d%s' % (T, i, D), b.where, t.subst(pos[i], {tq: b.at(i)}), sym('X'), 'the axle is elsewhere at that time', values=V, vary=['X', 'x0', 't0'])
    m = group(ctx, **full)
    s, y = sym('s'), sym('y')
    for given in ((), ('t0',), ('x0',)):
        kw = dict(v0=sym('w'), t0=s, x0=y)
        for g in given:
            kw.pop(g)
        st, sy = ZERO if 't0' in given else s, ZERO if 'x0' in given else y
        D = ' (default %s)' % ', '.join(given) if given else ''
        V = vals(sign, v=-sign * 1.1)
        c = m.call('axle_positions', t=tq, **kw)
        pos = [add(sy, axle(i, sign, off), mul(sym('w'), sub(tq, st))) for i in range(N)]
        for i in range(N):
            same(ctx, 'position', '%s axle_positions %d%s' % (T, i, D), c.where, c.at(i), pos[i], 'the axle is not at start position + coordinate + v*(t-t0)', values=V, vary=['off', 'tq', 's', 'y'])
        b = m.call('time_axles_pass_point', sym('X'), **kw)
        for i in range(N):
            same(ctx, 'passing', '%s point, axle %d%s' % (T, i, D), b.where, t.subst(pos[i], {tq: b.at(i)}), sym('X'), 'the axle is elsewhere at that time', values=V, vary=['X', 's', 'y'])
    if sign > 0:
        c = m.call('axle_positions')
        for i in range(N):
            same(ctx, 'position', '%s axle_positions at rest %d' % (T, i), c.where, c.at(i), axle(i, 1, off), 'the axles are not at their coordinates', values=vals(1), vary=['off'])
        c = m.call('axle_positions', t=tq, x0=y)
        for i in range(N):
            same(ctx, 'position', '%s axle_positions at rest, moved %d' % (T, i), c.where, c.at(i), add(y, axle(i, 1, off)), 'the axles are not at their coordinates', values=vals(1), vary=['off'])


def convert(ctx, sign):
    T = 'convert_to_specbeam %s' % ('to the right' if sign > 0 else 'to the left')
    own = dict(v=sym('v'), L=sym('L'), t0=sym('t0'), x0=sym('x0'), offset=sym('off'))
    other = dict(v=sym('w'), L=sym('M'), t0=sym('s'), x0=sym('y'))
    tq = sym('tq')
    for given in ((), ('v',), ('L',), ('t0',), ('x0',), ('v', 'L', 't0', 'x0')):
        m = group(ctx, **own)
        c = m.call('convert_to_specbeam', **{k: other[k] for k in given})
        use = {k: other[k] if k in given else own[k] for k in other}
        D = ' given %s' % ', '.join(given) if given else ''
        V = vals(sign, **({'v': -sign * 1.1} if 'v' in given else {}))
        pl, op = items(m.I, c.item(0), m.st), items(m.I, c.item(1), m.st)
        if len(pl) != N or len(op) != N:
            ctx.violation('spectral form', T + D, 'there is not one load history and one frequency for each axle', c.where)
            continue
        for i in range(N):
            xi = axle(i, sign)
            pos = add(use['x0'], ZERO if sign > 0 else use['L'], xi, mul(use['v'], sub(tq, use['t0'])))
            o = items(m.I, op[i], m.st)
            om, ph = [m.I.node(q, m.st) for q in o]
            same(ctx, 'spectral form', '%s axle %d phase' % (T + D, i), c.where, add(mul(om, tq), ph), pos, 'omega*t + phase is not the position of the axle', values=V, vary=['tq', 'off'])
            a = sub(use['t0'], div(xi, use['v']))
            b = add(a, div(use['L'], fn('abs', use['v'])))
            el = lambda q, k: c.value(k, of=m.I.getattr(pl[i], q, m.st))
            q = m.I.getattr(pl[i], 'x', m.st)
            if any(len(rows(m.I, m.st, v)) != 4 for v in branches(q)):
                ctx.violation('spectral form', '%s axle %d points' % (T + D, i), 'the load history is not a step on and a step off', c.where)
                continue
            for k, (tw, pw_) in enumerate(((a, ZERO), (a, sym('p%d' % i)), (b, sym('p%d' % i)), (b, ZERO))):
                same(ctx, 'spectral form', '%s axle %d time %d' % (T + D, i, k), c.where, el('x', k), tw, 'the load does not act exactly while it is on the beam', values=V, vary=['off', 't0', 'L'])
                same(ctx, 'spectral form', '%s axle %d size %d' % (T + D, i, k), c.where, add(el('y', k), ONE), add(pw_, ONE), 'the load is not that of the axle', values=V)
        # the group itself is unchanged: converting twice gives the same
        c2 = m.call('convert_to_specbeam', **{k: other[k] for k in given})
        op2 = items(m.I, c2.item(1), m.st)
        for i in range(N):
            for k in range(2):
                same(ctx, 'spectral form', '%s axle %d again %d' % (T + D, i, k), c.where, m.I.node(items(m.I, op2[i], m.st)[k], m.st), m.I.node(items(m.I, op[i], m.st)[k], m.st), 'converting changes the group', values=V)


def reset(ctx):
    """a velocity set later"""
    for sign in (1, -1):
        m = group(ctx, L=sym('L'), t0=sym('t0'), offset=sym('off'))
        for a in ('start_time', 'end_time', 'v'):
            r = m.attr(a).r
            ctx.count('attributes')
            if r is None:
                ctx.ok('on the beam', 'no velocity: %s' % a)
            else:
                ctx.violation('on the beam', 'no velocity: %s' % a, 'a group without velocity has times', m.where)
        m.call('setv', sym('w'))
        V = vals(sign)
        same(ctx, 'on the beam', 'velocity set later %d' % sign, m.where, m.attr('v').value(), sym('w'), 'the velocity is not the one set', values=V)
        for i in range(N):
            s = sub(sym('t0'), div(axle(i, sign), sym('w')))
            same(ctx, 'on the beam', 'velocity set later %d, start %d' % (sign, i), m.where, m.attr('start_time').at(i), s, 'the axle does not enter then', values=V)
            same(ctx, 'on the beam', 'velocity set later %d, end %d' % (sign, i), m.where, m.attr('end_time').at(i), add(s, div(sym('L'), fn('abs', sym('w')))), 'the axle does not leave then', values=V)


def domain(ctx):
    m = group(ctx, L=sym('L'), t0=sym('t0'), v=sym('v'))
    c = m.call('convert_to_specbeam', v=0)
    rejects(ctx, 'domain', 'convert_to_specbeam v=0', c, {k: t.mpf(v) for k, v in BASE.items()}, True, 'loads that do not move are accepted')
    c = m.call('convert_to_specbeam')
    rejects(ctx, 'domain', 'convert_to_specbeam', c, {k: t.mpf(v) for k, v in BASE.items()}, False, 'moving loads are refused')


def under(ctx, sign):
    """deflection under each axle of each group"""
    nx, nt = 4, 2

    def np_interp(I, a, kw, st, f):
        xn, xp, fp = [rows(I, st, q) for q in a[:3]]
        return wrap(I, st, A([t.mk('call', 'interp', q, *(xp + fp)) for q in xn]))
    V = dict(mx00=-0.05, mx01=-0.2, mp00=1.0, mp01=1.2, mo0=0.1, mt0=0.2, ms0=0.1, mL0=0.8, mv0=sign * 0.9, t0=0.5, t1=0.7, lo=0.05, hi=0.7, x0=0.1, x1=0.4, x2=0.6, L=1.7, w0=0.2, w1=0.3, w2=0.4)
    for lim in (True, False):
        m = beam(ctx, 2, 3, [], 1, 0, hooks={'numpy.interp': np_interp}, L=sym('L'))
        d = [[sym('d%d%d' % (i, j)) for j in range(nt)] for i in range(3)]
        m.set(defl_norm=A([A(q) for q in d]))
        c = m.call('defl_vs_time_under_loads', **({'xlim_norm': (sym('lo'), sym('hi'))} if lim else {}))
        w = items(m.I, m.attr('moving_load_w_norm').r, m.st)
        wp = items(m.I, m.attr('moving_load_w').r, m.st)
        T = 'deflections under loads to the %s%s' % ('right' if sign > 0 else 'left', '' if lim else ', default limits')
        if len(w) != 1 or len(wp) != 1:
            ctx.violation('under the loads', T, 'there is not one array for each group of loads', c.where)
            continue
        lo, hi = (sym('lo'), sym('hi')) if lim else (ZERO, ONE)
        for a in range(2):
            for j in range(nt):
                q = add(sym('mx0%d' % a), sym('mo0'))
                pos = add(sym('ms0'), ZERO if sign > 0 else sym('mL0'), q if sign > 0 else neg(q), mul(sym('mv0'), sub(sym('t%d' % j), sym('mt0'))))
                got = m.I.elem(m.I.as_array(w[0], m.st), (num(a), num(j)), m.st)
                val = t.mk('call', 'interp', pos, *([sym('x%d' % i) for i in range(3)] + [d[i][j] for i in range(3)]))
                for tv in (0.1, 0.5, 0.75, 1.3):
                    vv = near(dict(V, **{'t%d' % j: tv}))
                    out = t.or_(t.lt(pos, lo), t.lt(hi, pos))
                    same(ctx, 'under the loads', '%s axle %d time %d at %s' % (T, a, j, tv), c.where, got, t.ite(out, fnan(m), val), 'the value is not the deflection at the load', values=vv)
                    same(ctx, 'under the loads', '%s axle %d time %d at %s, scaled' % (T, a, j, tv), c.where, t.ite(out, ZERO, m.I.elem(m.I.as_array(wp[0], m.st), (num(a), num(j)), m.st)), t.ite(out, ZERO, mul(got, sym('L'))), 'the deflection is not the normalised one times L', values=vv)


def fnan(m):
    from sa.front import ext_const
    return ext_const('numpy.nan')


def branches(v):
    return branches(v.a) + branches(v.b) if isinstance(v, Gate) else [v]

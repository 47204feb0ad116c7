"""PolyLine-argument wrappers hand the right pieces of the right line to the array functions"""
import re
from sa import terms as t
from sa import kern
from sa.front import Interp, State, FuncV, ObjV, Arr, Opaque, PyList
from sa.terms import num

TECHNIQUE = ('Interprocedural argument-provenance analysis (value graph): every wrapper that accepts piecewise-linear line objects is abstracted with symbolic '
             'lines, the array function it forwards to is kept uninterpreted, and the value bound to each formal parameter is compared with the component of the '
             'line that parameter stands for.')
PW = kern.PW
# array function -> meaning of each formal, as (line, component); lines a, b, c in wrapper order
SPEC = {
    'dim1sin_af_linear': 'at=a.y1 ab=a.y2 zt=a.x1 zb=a.x2',
    'dim1sin_abf_linear': 'at=a.y1 ab=a.y2 bt=b.y1 bb=b.y2 zt=a.x1 zb=a.x2',
    'dim1sin_D_aDf_linear': 'at=a.y1 ab=a.y2 zt=a.x1 zb=a.x2',
    'dim1sin_DD_abDDf_linear': 'at=a.y1 ab=a.y2 bt=b.y1 bb=b.y2 zt=a.x1 zb=a.x2',
    'dim1sin_ab_linear': 'at=a.y1 ab=a.y2 bt=b.y1 bb=b.y2 zt=a.x1 zb=a.x2',
    'dim1sin_abc_linear': 'at=a.y1 ab=a.y2 bt=b.y1 bb=b.y2 ct=c.y1 cb=c.y2 zt=a.x1 zb=a.x2',
    'dim1sin_D_aDb_linear': 'at=a.y1 ab=a.y2 bt=b.y1 bb=b.y2 zt=a.x1 zb=a.x2',
    'dim1sin_a_linear_between': 'at=a.y1 ab=a.y2 zt=a.x1 zb=a.x2',
    'EDload_linear': 'loadtim=a.x loadmag=a.y', 'Eload_linear': 'loadtim=a.x loadmag=a.y',
    'EDload_coslinear': 'loadtim=a.x loadmag=a.y', 'Eload_coslinear': 'loadtim=a.x loadmag=a.y', 'Eload_sinlinear': 'loadtim=a.x loadmag=a.y',
    'interp_x1_x2_y1_y2': 'x1=a.x1 x2=a.x2 y1=a.y1 y2=a.y2',
    'interp_x_y': 'x=a.x y=a.y',
    'interp_xa_ya_multipy_x1b_x2b_y1b_y2b': 'xa=a.x ya=a.y x1b=b.x1 x2b=b.x2 y1b=b.y1 y2b=b.y2',
    'avg_x_y_between_xi_xj': 'x=a.x y=a.y',
    'integrate_x_y_between_xi_xj': 'x=a.x y=a.y',
    'integrate_x1_x2_y1_y2_between_xi_xj': 'x1=a.x1 x2=a.x2 y1=a.y1 y2=a.y2',
    'avg_x1_x2_y1_y2_between_xi_xj': 'x1=a.x1 x2=a.x2 y1=a.y1 y2=a.y2',
    'xa_ya_multipy_avg_x1b_x2b_y1b_y2b_between': 'xa=a.x ya=a.y x1b=b.x1 x2b=b.x2 y1b=b.y1 y2b=b.y2',
    'integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between': 'x1a=a.x1 x2a=a.x2 y1a=a.y1 y2a=a.y2 x1b=b.x1 x2b=b.x2 y1b=b.y1 y2b=b.y2',
    'xa_ya_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between':
        'xa=a.x ya=a.y x1b=b.x1 x2b=b.x2 y1b=b.y1 y2b=b.y2 x1c=c.x1 x2c=c.x2 y1c=c.y1 y2c=c.y2',
    'xa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between':
        'xa=a.x ya=a.y x1b=b.x1 x2b=b.x2 y1b=b.y1 y2b=b.y2 x1c=c.x1 x2c=c.x2 y1c=c.y1 y2c=c.y2',
}
# lines that must be brought to common break points before their pieces are paired
COMMON = {'dim1sin_abf_linear': 'ab', 'dim1sin_DD_abDDf_linear': 'ab', 'dim1sin_ab_linear': 'ab', 'dim1sin_abc_linear': 'abc', 'dim1sin_D_aDb_linear': 'ab',
          'integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between': 'ab',
          'xa_ya_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between': 'bc',
          'xa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between': 'bc'}


def line(I, st, name, n):
    r = I.p.resolve(PW, 'PolyLine')
    from sa.front import ClassV, newkey
    o = ObjV(newkey(), ClassV(r[1], r[2]), name)
    d = {}
    for a in ('x', 'y'):
        d[a] = I.sym_array(st, name + '.' + a, [t.size('P' + n)])
    for a in ('x1', 'x2', 'y1', 'y2'):
        d[a] = I.sym_array(st, name + '.' + a, [t.size('L' + n)])
    st.store[o.key] = d
    return o


def check(ctx):
    ctx.rule('component', 'each formal of the array function receives the matching component of the matching line')
    ctx.rule('passed on', 'each other argument (points, times, eigenvalues, frequencies, options) reaches the formal of the same name')
    ctx.rule('common breaks', 'lines whose pieces are paired are first refined to common break points')
    ctx.func(PW, 'PolyLine.__init__')
    for base, spec in SPEC.items():
        mod = PW if ctx.p.func(PW, base) else kern.INTEG
        bm, bnode, _ = ctx.func(mod, base)
        wm, wnode, _ = ctx.func(mod, 'p' + base)
        one(ctx, mod, base, bm, bnode, wm, wnode, spec)


def one(ctx, mod, base, bm, bnode, wm, wnode, spec):
    seen = []
    I = Interp(ctx.p)
    st = State()
    lines = {}

    def target(interp, args, kw, state, f):
        fr = interp.bind(f, args, kw, state)
        if fr is None:
            return t.unk('binding')
        env = dict(state.store[fr.key])
        seen.append({k: interp.descr(v, state) for k, v in env.items() if k in [a.arg for a in f.node.args.args]})
        return Opaque(t.mk('call', 'result:' + base))

    def common(interp, args, kw, state, f):
        out = []
        names = [a.symname for a in args if isinstance(a, ObjV)]
        if len(names) != len(args):
            return t.unk('common')
        tag = '|'.join(names)
        for nm in names:
            out.append(line(interp, state, nm + '~' + ''.join(sorted(n for n in tag.split('|'))), nm))
        return interp.new_list(state, out, True)
    I.hooks = {mod + '.' + base: target, PW + '.polyline_make_x_common': common}
    params = [a.arg for a in wnode.args.args]
    bpar = [a.arg for a in bnode.args.args]
    lin = sorted(set(re.findall(r'=(\w)\.', spec)))
    kw = {}
    for n in params:
        if n in lin:
            kw[n] = line(I, st, n, n)
        elif n in ('xi', 'xj', 'xai', 'xbi', 'xbj', 'tvals', 'm', 'eigs', 'z'):
            kw[n] = I.sym_array(st, n, [t.size('N' + n)])
        else:
            kw[n] = t.sym(n)
    extra = [n for n in bpar if n not in params and '%s=' % n not in ' ' + spec and not re.search(r'(^| )%s=' % n, spec)]
    if wnode.args.kwarg is not None:
        for n in extra:
            kw[n] = t.sym('opt.' + n)
    where = '%s:p%s' % (wm.rel, base)
    I.call_func(FuncV(wm, wnode), [], dict(kw), st)
    ctx.functions |= I.funcs
    if not seen:
        ctx.undecided('component', 'p' + base, 'the wrapper does not forward to ' + base)
        return
    for env in seen:
        com = COMMON.get(base, '')
        cname = ''.join(sorted(com))
        for item in spec.split():
            formal, src = item.split('=')
            ln, comp = src.split('.')
            sym = ln + ('~' + cname if ln in com else '')
            want = I.descr(I.sym_array(st, sym + '.' + comp, [t.ONE]), st)
            alts = [want]
            if ln in com and formal in ('zt', 'zb'):
                # after refinement the break points of the partner lines coincide
                alts = [I.descr(I.sym_array(st, o + '~' + cname + '.' + comp, [t.ONE]), st) for o in com]
            c = 'p%s:%s' % (base, formal)
            got = env.get(formal)
            ctx.count('bound formals')
            if got is None or got.unk:
                ctx.undecided('component', c, 'argument not traced')
            elif got in alts:
                ctx.ok('component', c)
            else:
                raw = I.descr(I.sym_array(st, ln + '.' + comp, [t.ONE]), st)
                if got is raw and com:
                    ctx.violation('common breaks', c, 'the pieces of line %s are paired with another line without first refining both to common break points' % ln, where)
                else:
                    ctx.violation('component', c, 'parameter %s of %s receives %s instead of %s' % (formal, base, t.show(got), src), where)
        for formal in bpar:
            if re.search(r'(^| )%s=' % formal, spec):
                continue
            c = 'p%s:%s' % (base, formal)
            if formal not in kw:
                continue
            got, want = env.get(formal), I.descr(kw[formal], st)
            ctx.count('bound formals')
            if got is None or got.unk:
                ctx.undecided('passed on', c, 'argument not traced')
            elif got is want:
                ctx.ok('passed on', c)
            else:
                ctx.violation('passed on', c, 'argument %s reaches %s as %s' % (formal, base, t.show(got)), where)

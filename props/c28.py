"""the tables that are saved and the figures that are drawn carry the computed values with their own times and depths"""
import re
from sa import terms as t
from sa import spec as sp
from sa.front import PyList, PyDict, StrV, ExtV, ObjV, Arr, Gate
from sa.scal import Inst, same, A
from sa.terms import Node, num, ZERO, ONE, sub, mul, neg
from . import c36
from .c36 import Case, point_loads, MOD as VR

TECHNIQUE = ('Abstract interpretation of the whole run of each program (assembly, output, plots): the tables handed to the file writer and the arguments handed to '
             'the plot functions are collected as value graphs, and every table entry, row label, column label, curve and curve label is compared with the '
             'documented result attribute and with the requested depths and times.')
s = t.sym
PL = 'geotecha.plotting.one_d.'
FORMALS = {'plot_vs_depth': 'x z line_labels H RLzero prop_dict', 'plot_vs_time': 't y line_labels prop_dict',
           'plot_single_material_vs_depth': 'z_x xlabels H RLzero prop_dict',
           'plot_generic_loads': 'load_triples load_names ylabels trange H RLzero prop_dict'}

# name of the table and of the figure, result attribute, which request it answers, words the heading must have, words it must not have
SPECS = {
    'vr': ('speccon1d_vr', 'Speccon1dVR', [('por', 'z', 'pressure', 'average settlement'), ('avp', 'a', 'average pressure', 'settlement'), ('set', 's', 'settlement', 'pressure')]),
    'vrw': ('speccon1d_vrw', 'Speccon1dVRW', [('por', 'z', 'pressure', 'average settlement drain well'), ('porwell', 'z', '(drain|well) pressure', 'average settlement'),
                                              ('avp', 'a', 'average pressure', 'settlement drain well'), ('set', 's', 'settlement', 'pressure')]),
    'vrc': ('speccon1d_vrc', 'Speccon1dVRC', [('pors', 'z', 'soil pressure', 'average column'), ('porc', 'z', 'column pressure', 'soil'), ('por', 'z', 'pressure', 'soil column settlement'),
                                              ('avps', 'a', 'average soil pressure', 'column settlement'), ('avpc', 'a', 'average column pressure', 'soil settlement'),
                                              ('avp', 'a', 'average pressure', 'soil column settlement'), ('set', 's', 'settlement', 'pressure')]),
    'unsat': ('speccon1d_unsat', 'Speccon1dUnsat', [('porw', 'z', 'water pressure', 'average air settlement'), ('pora', 'z', 'air pressure', 'average water settlement'),
                                                    ('avpw', 'a', 'average water pressure', 'air settlement'), ('avpa', 'a', 'average air pressure', 'water settlement'),
                                                    ('set', 's', 'settlement', 'pressure water air'), ('setw', 's', 'water settlement', 'pressure air'),
                                                    ('seta', 's', 'air settlement', 'pressure water')]),
}
MATERIAL = {'vr': {'mv': 'mvref', 'kv': 'kvref', 'kh': 'khref', 'et': 'etref'},
            'vrw': {'mv': 'mvref', 'kv': 'kvref', 'kh': 'khref', 'et': 'etref', 'kw': 'kwref'},
            'vrc': {'mv': 'mvref', 'kv': 'kvref', 'kh': 'khref', 'et': 'etref', 'kvc': 'kvcref', 'khc': 'khcref'},
            'unsat': {'m1kw': 'mvref', 'm2w': 'mvref', 'm1ka': 'mvref', 'm2a': 'mvref', 'kw': 'kwref', 'Da': 'Daref', 'S': None, 'n': None}}


def words(text, yes, no):
    text = text.lower()
    return all(re.search(w, text) for w in yes.split()) and not any(re.search(r'\b%s\b' % w, text) for w in no.split())


class View(object):
    """python view of a value of the analysed program"""

    def __init__(self, ctx, inst, where):
        self.ctx, self.inst, self.where = ctx, inst, where
        self.I, self.st = inst.I, inst.st

    def attr(self, name):
        return self.inst.attr(name).r

    def cell(self, v, *ix):
        c = self.inst.attr('H')
        return c.value(*ix, of=v)

    def shape(self, v):
        if isinstance(v, PyList):
            v = self.I.as_array(v, self.st)
        if isinstance(v, Arr):
            ax = [x.size for x in self.I.axes(v, self.st)]
            if all(x.op == 'num' for x in ax):
                return [int(x.args[0]) for x in ax]
        return None

    def seq(self, v):
        """items of a list or tuple, None if not a known list"""
        if isinstance(v, PyList):
            x = self.st.store[v.key]
            return x if isinstance(x, list) else None
        if isinstance(v, tuple):
            return list(v)
        return None

    def dict(self, v):
        if isinstance(v, PyDict):
            x = self.st.store[v.key]
            return x if isinstance(x, dict) else None
        return None


def text(v):
    """literal text of a string, values replaced by <>"""
    if isinstance(v, str):
        return v
    if isinstance(v, StrV) and v.parts is not None:
        return ''.join(p if isinstance(p, str) else '<>' for p in v.parts)
    return None


def values(v):
    """numbers inside a string, in order"""
    if isinstance(v, str):
        return [num(t.F(x)) for x in re.findall(r'-?\d+\.?\d*', v)]
    if isinstance(v, StrV) and v.parts is not None:
        out = []
        for p in v.parts:
            out += values(p) if isinstance(p, str) else [p[0]]
        return out
    return None


class Cmp(object):
    def __init__(self, ctx, view, label):
        self.ctx, self.v, self.label = ctx, view, label
        self.where = view.where

    def bad(self, rule, what, msg):
        self.ctx.violation(rule, '%s: %s' % (self.label, what), msg, self.where)

    def dunno(self, rule, what, why):
        self.ctx.undecided(rule, '%s: %s' % (self.label, what), why)

    def eq(self, rule, what, got, want, msg):
        if got is want:
            self.ctx.ok(rule, '%s: %s' % (self.label, what))
            return
        same(self.ctx, rule, '%s: %s' % (self.label, what), self.where, got, want, msg, values=c36.VALUES, seeds=(1,))

    def table(self, rule, what, got, want, msg):
        """two-dimensional data against rows of wanted values"""
        sh = self.v.shape(got)
        if sh is None:
            return self.dunno(rule, what, 'shape not concrete')
        if sh != [len(want), len(want[0])]:
            return self.bad(rule, what, '%s (shape %s instead of %s)' % (msg, sh, [len(want), len(want[0])]))
        for i, row in enumerate(want):
            for j, x in enumerate(row):
                self.eq(rule, '%s[%d,%d]' % (what, i, j), self.v.cell(got, i, j), x, msg)

    def vector(self, rule, what, got, want, msg):
        if isinstance(got, PyList) and self.v.seq(got) is not None and any(not isinstance(x, Node) for x in self.v.seq(got)):
            return self.dunno(rule, what, 'not numbers')
        sh = self.v.shape(got)
        if sh is None:
            return self.dunno(rule, what, 'shape not concrete')
        if sh != [len(want)]:
            return self.bad(rule, what, '%s (%s of them instead of %d)' % (msg, sh, len(want)))
        for i, x in enumerate(want):
            self.eq(rule, '%s[%d]' % (what, i), self.v.cell(got, i), x, msg)

    def labels(self, rule, what, got, want, msg):
        """strings that show the wanted numbers: list of tuples"""
        items = self.v.seq(got)
        if items is None:
            return self.dunno(rule, what, 'labels are not a known list')
        if len(items) != len(want):
            return self.bad(rule, what, '%s (%d labels for %d columns)' % (msg, len(items), len(want)))
        for i, (x, w) in enumerate(zip(items, want)):
            q = [x] if isinstance(x, Node) else values(x)
            if q is None:
                self.dunno(rule, '%s[%d]' % (what, i), 'label text not known')
            elif len(q) != len(w):
                self.bad(rule, '%s[%d]' % (what, i), '%s (label "%s")' % (msg, text(x)))
            else:
                for a, b in zip(q, w):
                    self.eq(rule, '%s[%d]' % (what, i), a, b, msg)


def mine(names):
    return {n: {'xlabel': 'my %s' % n, 'ylabel': 'our %s' % n} for n in names}


def recorder():
    calls = []
    hooks = {}
    for name, formals in FORMALS.items():
        def h(I, args, kw, st, f, name=name, formals=formals.split()):
            a = dict(zip(formals, args))
            a.update(kw)
            # contents of lists at the time of the call
            a['__name__'], a['__fig__'] = name, 'figure%d' % len(calls)
            a['__st__'] = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in st.store.items()}
            calls.append(a)
            return ExtV(a['__fig__'])
        hooks[PL + name] = h
    for k in range(24):
        def lab(I, args, kw, st, f, k=k):
            if k < len(calls):
                calls[k]['__label__'] = args[0] if args else kw.get('s')
            return None
        hooks['figure%d.set_label' % k] = lab
    return hooks, calls


def show(n):
    return 'no reduced level' if n is None else 'reduced level given'


def tables(ctx, label, inst, prog, rows, title, where):
    """the list of tables against the expected ones: rows = (name, attribute, times, columns, words, not words)"""
    v = View(ctx, inst, where)
    c = Cmp(ctx, v, label)
    got = v.seq(v.attr('_grid_data_dicts'))
    if got is None:
        c.dunno('tables', 'tables', 'list of tables not known')
        return
    ds = [v.dict(d) for d in got]
    if any(d is None or not isinstance(d.get('name'), str) for d in ds):
        c.dunno('tables', 'tables', 'a table is not a known dictionary')
        return
    names = [d['name'].lstrip('_') for d in ds]
    want = ['data_' + r[0] for r in rows]
    ctx.count('tables', len(want))
    if sorted(names) != sorted(want):
        c.bad('tables', 'tables', 'saved tables are %s instead of %s' % (names, want))
    else:
        ctx.ok('tables', '%s: tables' % label)
    for name, attr, times, cols, yes, no in rows:
        if 'data_' + name not in names:
            continue
        d = ds[names.index('data_' + name)]
        vals = [[v.cell(attr, j, i) for j in range(len(cols))] for i in range(len(times))]
        c.table('data', 'table %s' % name, d.get('data'), vals, 'the saved table does not hold the computed values (one row per time, one column per depth)')
        c.vector('row_labels', 'times of table %s' % name, d.get('row_labels'), times, 'rows of the saved table are not labelled with their times')
        c.labels('column_labels', 'depths of table %s' % name, d.get('column_labels'), cols, 'columns of the saved table are not labelled with their depths')
        h = text(d.get('header'))
        if h is None:
            c.dunno('header', 'header of %s' % name, 'header not known')
            continue
        last = h.strip().split('\n')[-1]
        if not re.search(r'program\W+%s\b' % prog, h):
            c.bad('header', 'header of %s' % name, 'header does not name the program: "%s"' % h[:60])
        elif title and title not in h:
            c.bad('header', 'header of %s' % name, 'header does not show the title')
        elif not words(last, yes, no):
            c.bad('header', 'header of %s' % name, 'heading "%s" does not describe %s' % (last, name))
        else:
            ctx.ok('header', '%s: %s' % (label, name))


def plots(ctx, label, inst, calls, where, rows, word, mine, H, RL, plain=False):
    """each requested result is drawn once: rows as for tables"""
    v = View(ctx, inst, where)
    c = Cmp(ctx, v, label)
    figs = v.seq(v.attr('_figures'))
    if figs is None:
        c.dunno('figures', 'figures', 'list of figures not known')
    else:
        a, b = sorted(str(getattr(x, 'name', x)) for x in figs), sorted(x['__fig__'] for x in calls)
        if a != b:
            c.bad('figures', 'figures', 'the list of figures has %d entries for %d figures drawn' % (len(a), len(b)))
        else:
            ctx.ok('figures', '%s: list of figures' % label)
    ctx.count('figures', len(rows))
    used = []
    for name, attr, kind, times, places, cols in rows:
        by = [k for k in calls if isinstance(k.get('__label__'), str) and re.fullmatch(r'(fig)?_?%s' % name, k['__label__'])]
        if len(by) != 1:
            c.bad('figures', 'figure %s' % name, '%d figures are labelled %s' % (len(by), name))
            continue
        k = by[0]
        used.append(k)
        f = 'plot_vs_depth' if kind == 'z' else 'plot_vs_time'
        if k['__name__'] != f:
            c.bad('figures', 'figure %s' % name, '%s is drawn with %s' % (name, k['__name__']))
            continue
        nd, nt = len(places), len(times)
        if kind == 'z':
            vals = [[v.cell(attr, i, j) for j in range(nt)] for i in range(nd)]
            c.table('curves', 'figure %s' % name, k.get('x'), vals, 'the curves are not the computed values')
            c.vector('curves', 'depths of figure %s' % name, k.get('z'), places, 'the curves are not drawn at the requested depths')
            c.labels('curves', 'labels of figure %s' % name, k.get('line_labels'), [(x,) for x in times], 'curves are not labelled with their times')
        else:
            vals = [[v.cell(attr, i, j) for i in range(nd)] for j in range(nt)]
            c.table('curves', 'figure %s' % name, k.get('y'), vals, 'the curves are not the computed values')
            c.vector('curves', 'times of figure %s' % name, k.get('t'), times, 'the curves are not drawn at their times')
            c.labels('curves', 'labels of figure %s' % name, k.get('line_labels'), cols, 'curves are not labelled with their depths')
        if kind == 'z' and not plain:
            level(c, name, k, H, RL)
        props(c, name, k, mine, 'xlabel' if kind == 'z' else 'ylabel', word[name])
    return [k for k in calls if k not in used]


def props(c, name, k, mine, axis=None, word=None):
    """plot properties of the user are used; without them the axis says what is drawn"""
    d = k.get('prop_dict')
    d = k['__st__'].get(d.key) if isinstance(d, PyDict) else {} if d is None else d
    if not isinstance(d, dict):
        return c.dunno('axes', 'axis of figure %s' % name, 'properties not known')
    if mine:
        if d.get('xlabel') != 'my %s' % name or d.get('ylabel') != 'our %s' % name:
            c.bad('axes', 'axis of figure %s' % name, 'the plot properties given for %s are not used' % name)
            return
    elif axis:
        x = text(d.get(axis))
        if x is None and axis in d:
            return c.dunno('axes', 'axis of figure %s' % name, 'label not known')
        if x is None or not words(x, *word):
            c.bad('axes', 'axis of figure %s' % name, 'the axis label "%s" does not describe %s' % (x, name))
            return
    c.ctx.ok('axes', '%s: %s' % (c.label, name))


def level(c, name, k, H, RL):
    if isinstance(k.get('H'), Node):
        c.eq('curves', 'thickness in figure %s' % name, k['H'], H, 'depths are not scaled with the total depth')
    else:
        c.bad('curves', 'thickness in figure %s' % name, 'depths are not scaled with the total depth')
    if RL is None:
        if k.get('RLzero') is not None:
            c.bad('curves', 'level in figure %s' % name, 'a reduced level is used that was not given')
    elif not isinstance(k.get('RLzero'), Node):
        c.bad('curves', 'level in figure %s' % name, 'the reduced level is not used')
    else:
        c.eq('curves', 'level in figure %s' % name, k['RLzero'], RL, 'the reduced level is not used')


def ident(v):
    return getattr(v, 'key', None)


def material(ctx, label, inst, k, where, mats, H, RL):
    """every given property is drawn, next to its own reference value"""
    v = View(ctx, inst, where)
    c = Cmp(ctx, v, label)
    st = k['__st__']
    seq = lambda x: st.get(x.key) if isinstance(x, PyList) else None
    zx, xl = seq(k.get('z_x')), seq(k.get('xlabels'))
    if zx is None or xl is None:
        return c.dunno('materials', 'materials', 'lists not known')
    if len(zx) != len(xl):
        return c.bad('materials', 'materials', '%d properties with %d labels' % (len(zx), len(xl)))
    want = {ident(v.attr(m)): m for m in mats}
    if any(x is None or ident(x) not in want for x in zx) or len(zx) != len(want):
        return c.bad('materials', 'materials', 'drawn are %s instead of %s' % ([want.get(ident(x), 'other') for x in zx], sorted(mats)))
    for x, l in zip(zx, xl):
        m = want[ident(x)]
        q = l.parts if isinstance(l, StrV) else (l,) if isinstance(l, str) else None
        if q is None:
            c.dunno('materials', 'label of %s' % m, 'label not known')
            continue
        vals = [p[0] for p in q if not isinstance(p, str)]
        ref = mats[m]
        if ref is None:
            if vals:
                c.bad('materials', 'label of %s' % m, '%s has no reference value' % m)
        elif len(vals) != 1:
            c.bad('materials', 'label of %s' % m, 'the label does not show one reference value')
        else:
            c.eq('materials', 'label of %s' % m, vals[0], v.attr(ref), 'the label of %s does not show its reference value' % m)
            # 'symbol / mean symbol , (mean symbol = value)': the symbol before '=' is that of the property
            a = re.sub(r'[^A-Za-z0-9^*]|left|right|overline|bar', '', q[0].split('/')[0])
            b = re.sub(r'[^A-Za-z0-9^*]|left|right|overline|bar', '', q[0].split(',')[-1])
            a, b = a.replace('1k', '').replace('2', '').replace('^w', '').replace('^a', '').rstrip('wa'), b
            if a[:1] != b[:1]:
                c.bad('materials', 'label of %s' % m, 'the reference value of %s is shown as the value of another symbol ("%s=")' % (m, b))
            else:
                ctx.ok('materials', '%s: label of %s' % (label, m))
    level(c, 'materials', k, H, RL)


def loads(ctx, label, inst, k, where, groups, H, RL):
    """groups: name -> list of (line value, depth value or number, omega phase)"""
    v = View(ctx, inst, where)
    c = Cmp(ctx, v, label)
    st = k['__st__']
    seq = lambda x: st.get(x.key) if isinstance(x, PyList) else list(x) if isinstance(x, tuple) else None
    tr, nm, yl = seq(k.get('load_triples')), seq(k.get('load_names')), seq(k.get('ylabels'))
    if tr is None or nm is None or yl is None or not all(isinstance(x, str) for x in nm + yl):
        return c.dunno('loads', 'loads', 'lists not known')
    if len(tr) != len(nm) or len(yl) != len(nm) or sorted(keyof(x, groups) for x in nm) != sorted(groups):
        return c.bad('loads', 'loads', 'drawn are %s instead of %s' % (nm, sorted(groups)))
    for x, name, y in zip(tr, nm, yl):
        g = keyof(name, groups)
        if len(groups[g][0]) and keyof(y.lower().replace('fixed', 'fixed').replace(' ', ''), groups) != g and not ylab(y, g):
            c.bad('loads', 'label of load %s' % g, 'axis label "%s" does not describe %s' % (y, name))
        items = seq(x)
        if items is None:
            c.dunno('loads', 'load %s' % g, 'list not known')
            continue
        if len(items) != len(groups[g]):
            c.bad('loads', 'load %s' % g, '%d loads drawn instead of %d' % (len(items), len(groups[g])))
            continue
        for i, (it, (wt, wd, wo)) in enumerate(zip(items, groups[g])):
            tri = seq(it)
            if tri is None or len(tri) != 3:
                c.dunno('loads', 'load %s %d' % (g, i), 'triple not known')
                continue
            if wt is not None and ident(tri[0]) != wt:
                c.bad('loads', 'load %s %d' % (g, i), 'the load history drawn is not that of the load')
            if wt is None:
                for ax, w in (('x', [s('t0'), s('t2')]), ('y', [ZERO, ZERO])):
                    if not isinstance(tri[0], ObjV):
                        c.bad('loads', 'load %s %d' % (g, i), 'the pressure held at zero is not drawn')
                        break
                    c.vector('loads', 'load %s %d' % (g, i), v.I.run(lambda: v.I.getattr(tri[0], ax, v.st)), w, 'the pressure held at zero is not drawn as zero over all times')
            if isinstance(wd, Node):
                q = [seq(y) for y in seq(tri[1]) or []]
                if len(q) != 2 or any(y is None or len(y) != 1 for y in q):
                    c.dunno('loads', 'depth of load %s %d' % (g, i), 'depth not known')
                else:
                    c.eq('loads', 'depth of load %s %d' % (g, i), q[0][0], wd, 'the load is not drawn at its depth')
                    c.eq('loads', 'depth of load %s %d' % (g, i), q[1][0], ONE, 'the load is not drawn at its depth')
            elif ident(tri[1]) != wd:
                c.bad('loads', 'depth of load %s %d' % (g, i), 'the depth variation drawn is not that of the load')
            if wo is None:
                if tri[2] is not None:
                    c.bad('loads', 'cycles of load %s %d' % (g, i), 'a steady load is drawn with cycles')
            else:
                q = seq(tri[2])
                if q is None or len(q) != 2:
                    c.bad('loads', 'cycles of load %s %d' % (g, i), 'a cyclic load is drawn without its cycles')
                else:
                    for a, b in zip(q, wo):
                        c.eq('loads', 'cycles of load %s %d' % (g, i), a, b, 'a cyclic load is drawn with other cycles')
            ctx.ok('loads', '%s: load %s %d' % (label, g, i))
    level(c, 'loads', k, H, RL)


def keyof(name, groups):
    n = name.lower()
    for g in groups:
        if n.startswith(g):
            return g
    return n


def ylab(y, g):
    y = y.lower()
    w = {'w': 'water', 'a': 'air'}.get(g[0]) if g in ('wtop', 'wbot', 'atop', 'abot') else None
    if w:
        return w in y and g[1:] in y
    return g[:3] in y


def speccon(ctx, label, which, ask, tsel, RL, title, cyc, few):
    prog, cls, specs = SPECS[which]
    case = Case(ctx, 'geotecha.speccon.' + prog, cls, 0, 1)
    hooks, calls = recorder()
    case.o.I.hooks.update(hooks)
    v = s('RLzero') if RL else None
    case.tv = [s('t0'), s('t1'), s('t2')]
    case.o.set(tvals=A(case.tv), RLzero=v, title=title, version='0.0', author='someone', plot_properties=mine([q[0] for q in specs] + ['load', 'material']) if title and cyc else {})
    mats = dict(MATERIAL[which])
    if few:
        for m in {'vr': ['kh', 'et'], 'vrw': ['kv']}.get(which, []):
            del mats[m]
    case.depth(*mats)
    dts = {'vr': 'dTv dTh', 'vrw': 'dTv dTh dTw', 'vrc': 'dTv dTh dTvc dThc n', 'unsat': 'dTw dTa ua_'}[which].split()
    need = {'dTv': 'kv', 'dTh': 'kh', 'dTvc': 'kvc', 'dThc': 'khc'}
    case.o.set(**{d: s(d) for d in dts if need.get(d, 'mv') in mats or d not in need})
    for m, ref in mats.items():
        if ref:
            case.o.set(**{ref: case.mvref if ref == 'mvref' else s(ref)})
    cy = [0, 1] if cyc else None
    groups = {}

    def group(name, items, depths):
        raw = [c for c in items]
        groups[name] = [(ln, d, c) for (ln, c), d in zip(raw, depths)]

    got = lambda a: [ident(x) for x in case.o.st.store[case.o.st.store[case.o.o.key][a].key]]
    su = case.loads('surcharge_vs_time', 2, cy, 'surcharge_vs_depth', 'surcharge_omega_phase')
    groups['surch'] = list(zip(got('surcharge_vs_time'), got('surcharge_vs_depth'), [x[1] for x in su]))
    if which == 'vr' and not few:
        va = case.loads('vacuum_vs_time', 1, cy and [1], 'vacuum_vs_depth', 'vacuum_omega_phase')
        groups['vac'] = list(zip(got('vacuum_vs_time'), got('vacuum_vs_depth'), [x[1] for x in va]))
    for q in (('wtop', 'wbot', 'atop', 'abot') if which == 'unsat' else ('top', 'bot')):
        if few and q in ('top', 'wbot', 'atop'):
            continue
        b = case.loads(q + '_vs_time', 2, cy, None, q + '_omega_phase')
        groups[q] = list(zip(got(q + '_vs_time'), [ZERO if q.endswith('top') else ONE] * 2, [x[1] for x in b]))
    if which in ('vr', 'vrw') and not few:
        for attr, g in (('fixed_ppress', 'fixed'), ('pumping', 'pump')):
            pts = point_loads(case, attr, 2, cy, g == 'fixed')
            keys = [ident(case.o.st.store[x.key][-1] if isinstance(x, PyList) else x[-1]) for x in case.o.st.store[case.o.st.store[case.o.o.key][attr].key]]
            groups[g] = [(k, p[0], p[3]) for k, p in zip(keys, pts)]
            if g == 'fixed' and not cyc:
                # pressure held at zero: no load history given
                case.o.set(fixed_ppress=[(pts[0][0], pts[0][1], None), (pts[1][0], pts[1][1], case.obj(pts[1][2]))])
                it = case.o.st.store[case.o.st.store[case.o.o.key][attr].key][1]
                groups[g] = [(None, pts[0][0], None), (ident(case.o.st.store[it.key][-1]), pts[1][0], None)]
    jp = ja = js = [0, 1, 2]
    kw = {}
    if 'z' in ask:
        kw['ppress_z'] = list(case.zz)
    if 'a' in ask:
        kw['avg_ppress_z_pairs'] = [list(p) for p in case.pairs]
    if 's' in ask:
        kw['settlement_z_pairs'] = [list(p) for p in case.pairs]
    if tsel:
        jp, ja, js = [2, 0], [1], [0, 2]
        kw.update(ppress_z_tval_indexes=jp, avg_ppress_z_pairs_tval_indexes=ja, settlement_z_pairs_tval_indexes=js)
    case.o.set(**kw)
    if not cyc:
        case.o.set(**{('%s_omega_phase' % a[:-8] if a.endswith('_vs_time') else a + '_omega_phase'): [None] * n
                      for a, n in [('surcharge_vs_time', 2)] + ([('vacuum_vs_time', 1)] if 'vac' in groups else []) +
                      [(q + '_vs_time', 2) for q in groups if q in ('top', 'bot', 'wtop', 'wbot', 'atop', 'abot')] +
                      [(a, 2) for a, g in (('fixed_ppress', 'fixed'), ('pumping', 'pump')) if g in groups]})
    case.run()
    where = case.last.where
    H = case.H
    lev = (lambda z: sub(v, mul(H, z))) if RL else (lambda z: mul(H, z))
    jj = {'z': jp, 'a': ja, 's': js}
    rows, prows = [], []
    cols = {'z': [(lev(z),) for z in case.zz]}
    cols['a'] = cols['s'] = [(lev(a), lev(b)) for a, b in case.pairs]
    V = View(ctx, case.o, where)
    for name, kind, yes, no in specs:
        if kind in ask:
            tm = [case.tv[j] for j in jj[kind]]
            rows.append((name, V.attr(name), tm, cols[kind], yes, no))
            prows.append((name, V.attr(name), kind, tm, case.zz if kind == 'z' else case.pairs, cols[kind]))
    tables(ctx, label, case.o, prog, rows, title, where)
    c = case.o.call('produce_plots')
    rest = plots(ctx, label, case.o, calls, c.where, prows, {q[0]: q[2:] for q in specs}, bool(title and cyc), H, v)
    kinds = {k['__name__']: k for k in rest}
    if len(rest) != 2 or sorted(kinds) != ['plot_generic_loads', 'plot_single_material_vs_depth']:
        ctx.violation('figures', '%s: figures' % label, 'figures drawn besides the results: %s' % [(k['__name__'], k.get('__label__')) for k in rest], c.where)
        return
    V = View(ctx, case.o, c.where)
    for n, k in (('material', 'plot_single_material_vs_depth'), ('load', 'plot_generic_loads')):
        props(Cmp(ctx, V, label), n, kinds[k], bool(title and cyc))
        if not re.search(n, str(kinds[k].get('__label__'))):
            ctx.violation('figures', '%s: %s' % (label, n), 'the figure of the %ss is labelled %s' % (n, kinds[k].get('__label__')), c.where)
    material(ctx, label, case.o, kinds['plot_single_material_vs_depth'], c.where, mats, H, v)
    loads(ctx, label, case.o, kinds['plot_generic_loads'], c.where, groups, H, v)


LAYERED = {'por': ('pressure', 'settlement'), 'avp': ('average pressure', 'settlement'), 'set': ('settlement', 'pressure')}


def layered(ctx, label, which, ask, title, rcalc):
    """schiffman and stein, nogami and li: the results are given, the tables and figures are made from them"""
    mod, cls = {'ss': ('schiffmanandstein1970', 'SchiffmanAndStein1970'), 'nl': ('nogamiandli2003', 'NogamiAndLi2003')}[which]
    hooks, calls = recorder()
    M = 'geotecha.consolidation.%s' % mod
    nop = lambda I, args, kw, st, f: None
    funcs = ['_calc_derived_properties', '_find_beta', '_calc_Bm_and_Cm', '_calc_Am', '_find_sn', '_find_alp', '_calc_betamn', '_calc_phia_and_phidota', '_calc_Cmn',
             'calc_por', 'calc_settle_and_avp', '_calc_por', '_calc_avp', 'calc_avp', 'calc_settle', '_calc_settle']
    for f in funcs:
        hooks['%s.%s.%s' % (M, cls, f)] = nop
    o = Inst(ctx, 'geotecha.consolidation.' + mod, cls, hooks=hooks)
    z, tp, tt = [s('z0'), s('z1'), s('z2')], [s('p0'), s('p1')], [s('t0'), s('t1')]
    por = [[s('por%d%d' % (i, j)) for j in range(2)] for i in range(3)]
    avp, st = [[s('avp0'), s('avp1')]], [[s('set0'), s('set1')]]
    h = [s('h0'), s('h1')]
    o.set(z=A(z), tpor=A(tp) if 'z' in ask else None, t=A(tt) if 'a' in ask else None, por=A(por), avp=A(avp), set=A(st), h=A(h), title=title, version='0.0', author='someone',
          plot_properties=mine(LAYERED) if title else {}, rcalc=rcalc, show_vert_eigs=False, _debug=False)
    c = o.call('make_output')
    rows, prows = [], []
    V = View(ctx, o, c.where)
    tot = t.add(*h)
    if 'z' in ask:
        rows.append(('por', V.attr('por'), tp, [(x,) for x in z], 'pressure', 'average settlement'))
        prows.append(('por', V.attr('por'), 'z', tp, z, None))
    if 'a' in ask:
        for n, w, no in (('avp', 'average pressure', 'settlement'), ('set', 'settlement', 'pressure')):
            rows.append((n, V.attr(n), tt, [(ZERO, tot)], w, no))
            prows.append((n, V.attr(n), 'a', tt, [0], [(ZERO, tot)]))
    tables(ctx, label, o, mod, rows, title, c.where)
    if which == 'nl':
        cc = Cmp(ctx, V, label)
        for d in V.seq(V.attr('_grid_data_dicts')) or []:
            radius(cc, 'header', V.dict(d).get('name'), V.dict(d).get('header'), rcalc)
    c = o.call('produce_plots')
    if which == 'nl' and title is None:
        for k in calls:
            d = k.get('prop_dict')
            d = k['__st__'].get(d.key) if isinstance(d, PyDict) else None
            if d is not None:
                radius(cc, 'axes', k.get('__label__'), d.get('xlabel' if k['__name__'] == 'plot_vs_depth' else 'ylabel'), rcalc)
    rest = plots(ctx, label, o, calls, c.where, prows, LAYERED, title is not None, None, None, plain=True)
    if rest:
        ctx.violation('figures', '%s: figures' % label, 'figures drawn besides the results', c.where)


def radius(c, rule, name, x, r):
    """results at one radius say at which, radial averages do not"""
    if not isinstance(x, (str, StrV)) or isinstance(x, StrV) and x.parts is None:
        return c.dunno(rule, 'radius of %s' % name, 'text not known')
    last = [p for p in (x.parts if isinstance(x, StrV) else (x,))][-2:]
    vals = [p[0] for p in last if not isinstance(p, str) and p[0].op == 'sym']
    if (r is None) != (not vals) or r is not None and vals[-1] is not r:
        c.bad(rule, 'radius of %s' % name, '"%s" does not say at which radius' % text(x).strip().split('\n')[-1])
    else:
        c.ctx.ok(rule, '%s: radius of %s' % (c.label, name))


def check(ctx):
    ctx.rule('tables', 'exactly the requested results are saved, each under its own name')
    ctx.rule('data', 'the saved table is the result: one row per time, one column per depth or interval')
    ctx.rule('row_labels', 'rows carry the times the result was computed for')
    ctx.rule('column_labels', 'columns carry the (reduced) levels the result was computed for')
    ctx.rule('header', 'the header names the program, the title and what the table holds')
    ctx.rule('figures', 'one figure per requested result, labelled with its name, and in the list of figures to save')
    ctx.rule('curves', 'curves are the result against its own depths or times and are labelled with their own times or depths')
    ctx.rule('axes', 'axes say what is drawn, or what the plot properties given for that figure say')
    ctx.rule('materials', 'every given material property is drawn next to its own reference value')
    ctx.rule('loads', 'every given load is drawn with its own history, depth variation and cycles')
    ctx.assumptions += ['two depths or intervals, three times, up to two loads of each kind; all values symbolic',
                        'the plot functions themselves (matplotlib calls) and the text of numbers (rounding to printed digits) are not analysed']
    jobs = []
    for w in SPECS:
        jobs.append(('%s all' % w, w, 'zas', False, True, None, False, 0))
        jobs.append(('%s times selected, cyclic loads, title' % w, w, 'zas', True, False, 'my project', True, 0))
        for a in 'zas' if ctx.thorough else {'vr': 'z', 'vrw': 'a', 'vrc': 's', 'unsat': 'a'}[w]:
            jobs.append(('%s only %s' % (w, a), w, a, False, True, 'x1', False, 1))
    th = [lambda j=j: speccon(ctx, *j) for j in jobs]
    for w, name in (('ss', 'schiffmanandstein1970'), ('nl', 'nogamiandli2003')):
        for a in ('za', 'z', 'a'):
            th.append(lambda w=w, a=a, name=name: layered(ctx, '%s %s' % (name, a), w, a, 'my project' if a == 'za' else None, None if w == 'ss' or a == 'z' else s('rcalc')))
    ctx.parallel(th)

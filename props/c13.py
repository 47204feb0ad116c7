"""input of the spectral programs: incomplete or inconsistent input is refused, complete input is accepted, omitted input takes the documented value"""
import ast
import re
from sa import terms as t
from sa.front import PyList, PyDict, ObjV, StrV, ExtV, Gate, ClassV, SliceV, newkey
from sa.spec import World, Line
from sa.scal import Inst, rejects, same, A
from sa.terms import Node, num, ZERO, ONE
from fractions import Fraction as F
from props.c04 import h_hasattr, h_dedent

TECHNIQUE = ('Abstract interpretation of the public input check on objects carrying every class of complete, incomplete and inconsistent input (one class per documented '
             'requirement); the condition under which it raises is evaluated for each class. Documented default values are read from the class docstrings and compared '
             'with the attributes of a new object.')

s = t.sym


def dline(name, lo=0, hi=1):
    return Line([num(lo), num(F(1, 2))], [num(F(1, 2)), num(hi)], [s(name + 'a'), s(name + 'b')], [s(name + 'c'), s(name + 'd')])


def tline(name):
    return Line(x=[ZERO, s(name + 't')], y=[s(name + 'p'), s(name + 'q')])


LOADS = {'vr': ['surcharge', 'vacuum', 'top', 'bot', 'fixed_ppress', 'pumping'], 'vrw': ['surcharge', 'top', 'bot', 'fixed_ppress', 'pumping'],
         'vrc': ['surcharge', 'top', 'bot'], 'unsat': ['surcharge', 'wtop', 'wbot', 'atop', 'abot']}
CLS = {'vr': 'Speccon1dVR', 'vrw': 'Speccon1dVRW', 'vrc': 'Speccon1dVRC', 'unsat': 'Speccon1dUnsat'}
DEPTH = {'vr': 'mv kh kv et', 'vrw': 'mv kh kv et kw', 'vrc': 'mv kh kv et khc kvc', 'unsat': 'm1kw m2w m1ka m2a kw Da S n'}
FACT = {'vr': 'dTv dTh', 'vrw': 'dTv dTh dTw', 'vrc': 'dTv dTh dTvc dThc n', 'unsat': 'dTw dTa'}
# groups that are given together or not at all, where the equation can do without them
TOGETHER = {'vr': ['dTh kh et', 'dTv kv'], 'vrw': ['dTv kv'], 'vrc': [], 'unsat': []}
NEEDED = {'vr': 'mv', 'vrw': 'mv dTh kh et dTw kw', 'vrc': 'mv dTh kh et dTv kv dTvc kvc dThc khc n', 'unsat': 'm1kw m2w m1ka m2a kw Da S n dTw dTa'}


class Input(object):
    """complete input; change() edits it before it is put on the object"""

    def __init__(self, which):
        self.which = which
        self.v = {}
        for d in DEPTH[which].split():
            self.v[d] = ('line', dline(d))
        for d in FACT[which].split():
            self.v[d] = ('num', s(d))
        for l in LOADS[which]:
            if l in ('fixed_ppress', 'pumping'):
                self.v[l] = ('points', [l + '0', l + '1'])
            else:
                self.v[l + '_vs_time'] = ('lines', [tline(l + '0'), tline(l + '1')])
            self.v[l + '_omega_phase'] = ('cyc', [1, None])
            if l in ('surcharge', 'vacuum'):
                self.v[l + '_vs_depth'] = ('lines', [dline(l + 'd0'), dline(l + 'd1')])
        self.v['tvals'] = ('nums', 3)
        self.v['ppress_z'] = ('nums', 2)
        self.v['avg_ppress_z_pairs'] = ('pairs', 2)
        self.v['settlement_z_pairs'] = ('pairs', 2)

    def drop(self, *names):
        for n in names:
            for k in [q for q in self.v if q == n]:
                del self.v[k]
        return self

    def drop_load(self, l):
        return self.drop(*[q for q in self.v if q == l or q.startswith(l + '_')])

    def set(self, n, v):
        self.v[n] = v
        return self

    def build(self, ctx):
        W = World()
        o = Inst(ctx, 'geotecha.speccon.speccon1d_' + self.which, CLS[self.which], hooks=W.hooks)
        out = {}
        for n, (k, x) in self.v.items():
            mk = lambda ln: W.obj(o.I, o.st, ln)
            if k == 'line':
                out[n] = mk(x)
            elif k == 'lines':
                out[n] = [mk(q) for q in x]
            elif k == 'num':
                out[n] = x
            elif k == 'nums':
                out[n] = [s('%s%d' % (n, i)) for i in range(x)]
            elif k == 'pairs':
                out[n] = [[s('%sa%d' % (n, i)), s('%sb%d' % (n, i))] for i in range(x)]
            elif k == 'cyc':
                out[n] = [None if q is None else (s(n + 'w'), s(n + 'p')) for q in x]
            elif k == 'one cyc':
                out[n] = (s(n + 'w'), s(n + 'p'))
            elif k == 'points':
                out[n] = [(s(q + 'z'), s(q + 'k'), mk(tline(q))) if n == 'fixed_ppress' else (s(q + 'z'), mk(tline(q))) for q in x]
            elif k == 'none':
                out[n] = None
        o.set(**out)
        self.objs = out
        return o


def judge(ctx, rule, label, inp, want, msg):
    o = inp.build(ctx)
    c = o.call('check_input_attributes')
    rejects(ctx, rule, '%s: %s' % (inp.which, label), c, {}, want, msg)
    return o, c


def seq(o, v):
    if isinstance(v, PyList):
        x = o.st.store[v.key]
        return x if isinstance(x, list) else None
    return None


def programs(ctx, w):
    I = lambda: Input(w)
    ok = 'complete input is refused'
    judge(ctx, 'accepted', 'everything given', I(), False, ok)
    # what may be left out
    for l in LOADS[w]:
        judge(ctx, 'accepted', 'no %s' % l, I().drop_load(l), False, ok)
        judge(ctx, 'accepted', '%s without cycles' % l, I().drop(l + '_omega_phase'), False, ok)
        only = I()
        for q in LOADS[w]:
            if q != l:
                only.drop_load(q)
        judge(ctx, 'accepted', 'only %s' % l, only, False, ok)
    for a in ('ppress_z', 'avg_ppress_z_pairs', 'settlement_z_pairs'):
        judge(ctx, 'accepted', 'only %s' % a, I().drop(*[q for q in ('ppress_z', 'avg_ppress_z_pairs', 'settlement_z_pairs') if q != a]), False, ok)
    for g in TOGETHER[w]:
        x = I().drop(*g.split())
        if w == 'vr' and 'kh' in g:
            x.drop_load('vacuum')
        judge(ctx, 'accepted', 'no %s' % g, x, False, ok)
    # what may not
    bad = lambda what: '%s is accepted' % what
    for n in NEEDED[w].split():
        judge(ctx, 'needed', 'no %s' % n, I().drop(n), True, bad('input without %s' % n))
    for g in TOGETHER[w]:
        for n in g.split():
            x = I().drop(n)
            judge(ctx, 'needed', 'no %s with %s' % (n, g), x, True, bad('input with part of %s' % g))
    if w == 'vr':
        judge(ctx, 'needed', 'no drainage', I().drop('dTh', 'kh', 'et', 'dTv', 'kv').drop_load('vacuum'), True, bad('input without any drainage'))
        judge(ctx, 'needed', 'vacuum without drain', I().drop('dTh', 'kh', 'et'), True, bad('vacuum without drain'))
    judge(ctx, 'needed', 'no times', I().drop('tvals'), True, bad('input without times'))
    judge(ctx, 'needed', 'no output', I().drop('ppress_z', 'avg_ppress_z_pairs', 'settlement_z_pairs'), True, bad('input without output'))
    x = I()
    for l in LOADS[w]:
        x.drop_load(l)
    judge(ctx, 'needed', 'no load', x, True, bad('input without load'))
    for l in LOADS[w]:
        base = l if l in ('fixed_ppress', 'pumping') else l + '_vs_time'
        judge(ctx, 'needed', 'cycles of %s without load' % l, I().drop(base, l + '_vs_depth'), True, bad('cycles without load'))
        if l in ('surcharge', 'vacuum'):
            for q in ('_vs_time', '_vs_depth'):
                judge(ctx, 'needed', 'no %s%s' % (l, q), I().drop(l + q, l + '_omega_phase'), True, bad('load without %s' % q))
        # lengths
        for n in (0, 2):
            judge(ctx, 'lengths', '%s: cycles for %d loads of 2' % (l, n + 1), I().set(l + '_omega_phase', ('cyc', [1, None, 1][:n + 1])), True,
                  bad('%d cycles for 2 loads' % (n + 1)))
        if l in ('surcharge', 'vacuum'):
            judge(ctx, 'lengths', '%s: 1 depth variation for 2 loads' % l, I().set(l + '_vs_depth', ('lines', [dline('q')])), True, bad('1 depth variation for 2 loads'))
            judge(ctx, 'lengths', '%s: 3 depth variations for 2 loads' % l, I().set(l + '_vs_depth', ('lines', [dline('q'), dline('r'), dline('v')])), True, bad('3 depth variations for 2 loads'))
    # depths
    for n in DEPTH[w].split():
        for lo, hi in ((0, 2), (F(1, 4), 1)):
            judge(ctx, 'same depths', '%s over [%s, %s]' % (n, lo, hi), I().set(n, ('line', dline(n, lo, hi))), True, bad('%s over another depth range' % n))
    for l in ('surcharge', 'vacuum'):
        if l in LOADS[w]:
            for k in range(2):
                for lo, hi in ((0, 2), (F(1, 4), 1)):
                    x = [dline('p'), dline('q')]
                    x[k] = dline('r', lo, hi)
                    judge(ctx, 'same depths', '%s_vs_depth %d over [%s, %s]' % (l, k, lo, hi), I().set(l + '_vs_depth', ('lines', x)), True, bad('load over another depth range'))
    # what the check makes of single loads and omitted cycles
    for l in LOADS[w]:
        base = l if l in ('fixed_ppress', 'pumping') else l + '_vs_time'
        om = l + '_omega_phase'
        x = I().drop(om)
        o, c = judge(ctx, 'accepted', '%s without cycles' % l, x, False, ok)
        v = seq(o, o.attr(om).r)
        if v is None and isinstance(o.attr(om).r, (Node, Gate)):
            ctx.undecided('filled in', '%s: %s' % (w, om), 'not known')
        elif v != [None, None]:
            ctx.violation('filled in', '%s: %s' % (w, om), 'omitted cycles of 2 loads become %s' % (v,), c.where)
        else:
            ctx.ok('filled in', '%s: %s' % (w, om))
        if l in ('fixed_ppress', 'pumping'):
            continue
        x = I().drop(l + '_vs_depth').set(base, ('line', tline('w'))).set(om, ('one cyc', None))
        if l in ('surcharge', 'vacuum'):
            x.set(l + '_vs_depth', ('line', dline('w')))
        o, c = judge(ctx, 'accepted', 'single %s' % l, x, False, 'a single load is refused')
        for a in [base, om] + ([l + '_vs_depth'] if l in ('surcharge', 'vacuum') else []):
            v = seq(o, o.attr(a).r)
            first = v[0] if v and len(v) == 1 else None
            good = first is not None and (a == om and isinstance(first, PyList) or a != om and isinstance(first, ObjV) and first.key == x.objs[a].key)
            if good:
                ctx.ok('filled in', '%s: single %s' % (w, a))
            elif v is None and isinstance(o.attr(a).r, (Node, Gate)):
                ctx.undecided('filled in', '%s: single %s' % (w, a), 'not known')
            else:
                ctx.violation('filled in', '%s: single %s' % (w, a), 'a single load is not put in a list', c.where)


# ---------------------------------------------------------------- documented defaults
CLASSES = [('geotecha.speccon.speccon1d_vr', 'Speccon1dVR'), ('geotecha.speccon.speccon1d_vrw', 'Speccon1dVRW'), ('geotecha.speccon.speccon1d_vrc', 'Speccon1dVRC'),
           ('geotecha.speccon.speccon1d_unsat', 'Speccon1dUnsat'), ('geotecha.consolidation.schiffmanandstein1970', 'SchiffmanAndStein1970'),
           ('geotecha.consolidation.nogamiandli2003', 'NogamiAndLi2003')]
ENTRY = re.compile(r'^( *)((?:[A-Za-z_]\w*)(?: *, *[A-Za-z_]\w*)*) *: ')


def documented(doc):
    """attribute -> default value text, from 'name : type, optional' entries with 'Default [name]=value'"""
    out, names = {}, []
    text = ''
    lines = doc.split('\n')
    ind = min([len(l) - len(l.lstrip()) for l in lines[1:] if l.strip()] or [0])
    blocks = []
    for l in lines:
        m = ENTRY.match(l)
        if m and len(m.group(1)) == ind:
            blocks.append([[n.strip() for n in m.group(2).split(',')], ''])
        elif blocks and (not l.strip() or len(l) - len(l.lstrip()) > ind):
            blocks[-1][1] += ' ' + l.strip()
        elif l.strip():
            blocks.append([[], ''])
    for names, text in blocks:
        for m in re.finditer(r"[Dd]efault *((?:\w+ *= *)+)(slice\([^)]*\)|'[^']*'|\"[^\"]*\"|[-\w.]+)", text):
            said = [q.strip() for q in m.group(1).split('=') if q.strip()]
            for n in (said if said else names):
                if n in names:
                    out[n] = m.group(2).rstrip('.')
    return out


def value_of(x):
    if x.startswith('slice'):
        return ('slice',)
    try:
        v = ast.literal_eval(x)
    except (ValueError, SyntaxError):
        m = re.match(r'-?\d+\.?\d*(e-?\d+)?', x)
        if not m:
            return Lost
        v = ast.literal_eval(m.group(0))
    return v


class Lost(object):
    pass


def defaults(ctx, mod, cls):
    r = ctx.p.resolve(mod, cls)
    from sa import core
    if not r or r[0] != 'class':
        raise core.AnchorLost('%s.%s' % (mod, cls))
    doc = ast.get_docstring(r[2], clean=False) or ''
    o = Inst(ctx, mod, cls)
    d = documented(doc)
    ctx.count('documented defaults', len(d))
    where = '%s:%s' % (r[1].rel, cls)
    for n, txt in sorted(d.items()):
        if n == 'prefix':
            continue                       # every program sets its own prefix
        want = value_of(txt)
        label = '%s.%s' % (cls, n)
        got = o.attr(n).r
        msg = '%s is documented to default to %s' % (n, txt)
        if want is Lost:
            ctx.undecided('defaults', label, 'value %s' % txt)
        elif want == ('slice',):
            parts = getattr(got, 'parts', None)
            sh = str(got)
            if isinstance(got, Node) or isinstance(got, (PyList, str, bool)) or got is None:
                ctx.violation('defaults', label, msg + ', it is %s' % (sh,), where) if not (isinstance(got, Node) and got.unk) else ctx.undecided('defaults', label, 'unknown')
            else:
                full = all(getattr(got, q, None) is None for q in ('lo', 'hi', 'step', 'lower', 'upper', 'start', 'stop'))
                ctx.ok('defaults', label) if full else ctx.violation('defaults', label, msg, where)
        elif isinstance(want, bool) or want is None or isinstance(want, str):
            if isinstance(got, Node) and got.unk or isinstance(got, Gate):
                ctx.undecided('defaults', label, 'unknown')
            elif isinstance(want, bool) and isinstance(got, Node) and got in (t.TRUE, t.FALSE):
                ctx.ok('defaults', label) if (got is t.TRUE) == want else ctx.violation('defaults', label, msg, where)
            elif type(got) is type(want) and got == want:
                ctx.ok('defaults', label)
            else:
                ctx.violation('defaults', label, msg + ', it is %s' % (got,), where)
        elif isinstance(got, Node):
            same(ctx, 'defaults', label, where, got, num(F(str(want))), msg)
        else:
            ctx.violation('defaults', label, msg + ', it is %s' % (got,), where)


def layered(ctx, mod, cls, names, incomplete, complete, **others):
    """one value per layer in every layer property"""
    def run(lens, without=()):
        o = Inst(ctx, mod, cls)
        o.set(**{n: A([s('%s%d' % (n, i)) for i in range(k)]) for n, k in lens.items()})
        o.set(**{n: A([s('%s%d' % (n, i)) for i in range(v)]) if v else s(n) for n, v in others.items()})
        o.set(**{n: None for n in without})
        return o.call('check_input_attributes')
    base = {n: 2 for n in names}
    rejects(ctx, 'accepted', '%s: same number of layers' % cls, run(base), {}, False, 'complete input is refused')
    for rule, l in (('needed', incomplete), ('accepted', complete)):
        for w in l:
            rejects(ctx, rule, '%s: no %s' % (cls, w), run(base, w.split()), {}, rule == 'needed', 'input without %s is %s' % (w, 'accepted' if rule == 'needed' else 'refused'))
    for n in names:
        for k in (1, 3):
            rejects(ctx, 'lengths', '%s: %d values of %s for 2 layers' % (cls, k, n), run(dict(base, **{n: k})), {}, True, '%d values of %s for 2 layers are accepted' % (k, n))


def make_all(ctx, w):
    """nothing is calculated from refused input; complete input is calculated in order"""
    mod, cls = 'geotecha.speccon.speccon1d_' + w, CLS[w]
    for label, inp, want in (('complete', Input(w), False), ('no material', Input(w).drop(NEEDED[w].split()[0]), True)):
        done = []
        o = inp.build(ctx)
        for m in ('make_time_independent_arrays', 'make_time_dependent_arrays', 'make_output', 'produce_plots'):
            def h(I, args, kw, st, f, m=m):
                done.append(m)
                return None
            o.I.hooks['%s.%s.%s' % (mod, cls, m)] = h
        c = o.call('make_all')
        rejects(ctx, 'make_all', '%s: make_all, %s' % (w, label), c, {}, want, 'make_all %s %s input' % ('accepts' if want else 'refuses', label))
        if not want:
            if done != ['make_time_independent_arrays', 'make_time_dependent_arrays', 'make_output']:
                ctx.violation('make_all', '%s: order' % w, 'make_all carries out %s' % done, c.where)
            else:
                ctx.ok('make_all', '%s: order' % w)


BASE = 'geotecha.inputoutput.inputoutput', 'InputFileLoaderCheckerSaver'


def requirements(ctx):
    """the kinds of requirement a program can state, on a program that states just one"""
    W = World()
    names = ['aa', 'bb', 'cc']
    SPEC = ['_zero_or_all', '_at_least_one', '_one_implies_others', '_attributes_that_should_be_lists', '_attributes_that_should_have_same_x_limits',
            '_attributes_that_should_have_same_len_pairs', '_attributes_to_force_same_len']

    def run(spec, vals):
        o = Inst(ctx, *BASE, hooks=W.hooks)
        o.set(**{k: [] for k in SPEC})
        o.set(**spec)
        mk = lambda v: W.obj(o.I, o.st, v) if isinstance(v, Line) else [mk(q) for q in v] if isinstance(v, list) else v
        o.set(**{n: mk(v) for n, v in vals.items()})
        return o, o.call('check_input_attributes')
    for n in (1, 2, 3):
        for bits in range(2 ** n):
            have = [bool(bits >> k & 1) for k in range(n)]
            vals = {names[k]: s(names[k]) if have[k] else None for k in range(n)}
            lab = '%s of %d' % (''.join('+' if h else '-' for h in have), n)
            for key, want in (('_zero_or_all', any(have) and not all(have)), ('_at_least_one', not any(have)),
                              ('_one_implies_others', have[0] and not all(have))):
                if n == 1 and key == '_one_implies_others':
                    continue
                for twice in (False, True):
                    o, c = run({key: ([['zz']] if key == '_at_least_one' else [['zz', 'yy']] if twice else []) * twice + [names[:n]]}, dict(vals, zz=s('zz'), yy=s('yy')))
                    rejects(ctx, 'needed' if want else 'accepted', '%s: %s%s' % (key, lab, ', second group' * twice), c, {}, want, '%s given %s: %s' % (key, lab, 'accepted' if want else 'refused'))
    for ka in range(0, 4):
        for kb in range(0, 4):
            vals = dict(aa=[s('a%d' % i) for i in range(ka)] or None, bb=[s('b%d' % i) for i in range(kb)] or None)
            o, c = run({'_attributes_that_should_have_same_len_pairs': [['aa', 'bb']]}, vals)
            want = ka and kb and ka != kb
            rejects(ctx, 'lengths' if want else 'accepted', 'pair of lengths %d and %d' % (ka, kb), c, {}, bool(want), 'lists of lengths %d and %d: %s' % (ka, kb, 'accepted' if want else 'refused'))
    R = [(0, 1), (F(1, 4), 1), (0, 2)]
    show = lambda sh: ', '.join('[%s]' % ' '.join('%s-%s' % q for q in x) if isinstance(x, list) else 'none' if x is None else '%s-%s' % x for x in sh)
    made = [0]

    def line(q):
        made[0] += 1
        return dline('l%d' % made[0], *q)
    shapes = []
    for ra in R:
        for rb in R:
            for la in (0, 1, 2):
                for lb in (0, 1, 2):
                    shapes.append([None, ra if not la else [ra] * la, rb if not lb else [rb] * lb])
    b, w1, w2 = R
    for w in (w1, w2):
        for L in ([b, w], [w, b], [b, b, w], [b, w, b], [w, w]):       # one line of a list that differs, the list being first, second or the only one
            shapes += [[L, None, None], [None, L, None], [None, None, L], [L, b, None], [b, L, None], [None, b, L], [[b], L, None], [L, [b], None], [[b, b], L, b], [b, [b, b], L], [L, [b, b], b]]
        for k in range(3):
            shapes.append([w if q == k else b for q in range(3)])
    for sh in shapes:
        vals = {n: None if x is None else [line(q) for q in x] if isinstance(x, list) else line(x) for n, x in zip(('cc', 'aa', 'bb'), sh)}
        flat = [q for x in sh if x is not None for q in (x if isinstance(x, list) else [x])]
        for key in ([['cc', 'aa', 'bb']], [['zz'], ['cc', 'aa', 'bb']]):
            if len(key) > 1 and len(flat) > 3:
                continue
            o, c = run({'_attributes_that_should_have_same_x_limits': key}, dict(vals, zz=None))
            want = len(set(flat)) > 1
            rejects(ctx, 'same depths' if want else 'accepted', 'ranges %s%s' % (show(sh), ', second group' * (len(key) > 1)), c, {}, want,
                    'depth ranges %s: %s' % (show(sh), 'accepted' if want else 'refused'))


def alike(v, w, o, p):
    if v is w or type(v) is not type(w):
        return v is w
    if isinstance(v, (PyDict, PyList)):
        x, y = o.st.store[v.key], p.st.store[w.key]
        return len(x) == len(y) and (all(alike(i, j, o, p) for i, j in zip(x, y)) if isinstance(v, PyList) else list(x) == list(y) and all(alike(x[k], y[k], o, p) for k in x))
    if isinstance(v, SliceV):
        return all(alike(getattr(v, k), getattr(w, k), o, p) for k in ('lo', 'hi', 'step'))
    return v == w


def transfer(ctx, mod, cls):
    """what the text assigns arrives on the object; everything else has its default; nothing else arrives"""
    mods = {}

    def h(I, args, kw, st, f):
        m = ObjV(newkey(), ClassV(f.mod if getattr(f, 'mod', None) is not None else None, ast.parse('class Text: pass').body[0]))
        st.store[m.key] = dict({k: s('text_' + k) for k in given}, __obj__=True)
        return m
    given = []
    plain = Inst(ctx, mod, cls, unroll=5000)
    names = [k for k in plain.st.store[plain.o.key] if not k.startswith('_') and k != 'pkg_for_version']
    attrs = seq(plain, plain.st.store[plain.o.key].get('_attributes'))
    if not attrs or not all(isinstance(a, str) for a in attrs):
        return ctx.undecided('transfer', cls, 'list of attributes not derived')
    for lab, given in (('every attribute', list(attrs) + ['other_name', '_attributes', '_figures', '_file_stem']), ('no attribute', ['other_name']), ('every second attribute', attrs[::2] + ['make_all', '_setup'])):
        o = Inst(ctx, mod, cls, kw={'reader': 'text'}, hooks={'geotecha.inputoutput.inputoutput.make_module_from_text': h, 'builtins.hasattr': h_hasattr, 'textwrap.dedent': h_dedent}, unroll=5000)
        d = o.st.store[o.o.key]
        if o.I.gave_up:
            ctx.undecided('transfer', '%s: %s' % (cls, lab), 'interpretation incomplete')
            continue
        for a in sorted(set(attrs) | set(given)):
            v = d.get(a, 'missing')
            key = '%s: %s, %s' % (cls, lab, a)
            if a in attrs and a in given:
                good = v is s('text_' + a)
                msg = 'the value of %s in the text does not arrive' % a
            elif a in attrs:
                w = plain.st.store[plain.o.key].get(a)
                good = alike(v, w, o, plain) or a == 'version'
                msg = '%s, not in the text, is changed by reading it' % a
            else:
                good = v is not s('text_' + a)
                msg = '%s of the text, no attribute of the program, arrives on the object' % a
            if isinstance(v, Node) and v.unk and not good:
                ctx.undecided('transfer', key, 'value not derived')
            elif good:
                ctx.ok('transfer', key)
            else:
                ctx.violation('transfer', key, msg, o.where)


def check(ctx):
    ctx.rule('make_all', 'make_all refuses what the check refuses, and otherwise carries out all steps in order')
    ctx.rule('accepted', 'complete input is accepted')
    ctx.rule('needed', 'input with a required part missing, or with a part whose counterpart is missing, is refused')
    ctx.rule('lengths', 'lists that are used in pairs and have different lengths are refused')
    ctx.rule('same depths', 'depth data over different ranges is refused')
    ctx.rule('filled in', 'a single load becomes a list of one, omitted cycles become one None per load')
    ctx.rule('transfer', 'attributes assigned in the input text arrive unchanged, others keep their default, other names do not arrive')
    ctx.rule('defaults', 'attributes not set by the user have the documented default')
    ctx.assumptions += ['two loads of each kind']
    ctx.parallel([lambda w=w: programs(ctx, w) for w in CLS] + [lambda a=a: defaults(ctx, *a) for a in CLASSES] +
                 [lambda w=w: make_all(ctx, w) for w in CLS] + [lambda: requirements(ctx)] + [lambda a=a: transfer(ctx, *a) for a in CLASSES] +
                 [lambda: layered(ctx, *CLASSES[4], ['h', 'kv', 'mv'], ['h', 'kv', 'mv', 'surcharge_vs_time', 'htop', 'ktop', 'hbot', 'kbot', 'z', 't'],
                                  ['htop ktop', 'hbot kbot', 'htop ktop hbot kbot', 'z t', 'tpor'], htop=0, ktop=0, hbot=0, kbot=0, tpor=2, surcharge_vs_time=1, z=2, t=2), lambda: layered(ctx, *CLASSES[5], ['h', 'kv', 'kh', 'mv'], ['h', 'kv kh r0 r1', 'mv', 'surcharge_vs_time', 'r0', 'r1', 'r0 r1', 'kh', 't tpor'],
                                  ['r0 r1 kh', 'tpor', 't'], surcharge_vs_time=1, z=2, t=2, tpor=2, r0=0, r1=0, nh=0, nv=0)])

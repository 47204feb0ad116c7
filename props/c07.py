"""output files: written on request only, under the documented names, beside what is there already; the process is left as it was"""
import ast
import copy
import itertools
import os.path
import posixpath
import re
from sa import terms as t
from sa.front import ClassV, ObjV, ExtV, FuncV, PyList, PyDict, StrV, Opaque, newkey
from sa.scal import Inst, Call, A, rejects
from sa.terms import Node, TRUE, num

TECHNIQUE = ('Effect analysis: the routines that create files are abstracted on a model of the file system (folder contents per input class); the sequence of effects (folders made, files opened, text and '
             'tables written, figures saved) is compared with the documented one. Calls that change process-wide state are checked to be undone in order.')

MOD = 'geotecha.inputoutput.inputoutput'
BASE = 'InputFileLoaderCheckerSaver'
s = t.sym


def text(v):
    """what is known of a string: parts, numbers as their symbol"""
    if isinstance(v, str):
        return v
    return None


class Disk(object):
    """a file system: folders with the names in them"""

    def __init__(self, folders=None):
        self.dirs = {k: list(v) for k, v in (folders or {}).items()}
        self.ev = []
        self.lost = []
        H = self.H = {}
        pure = lambda fn: lambda I, args, kw, st, f: fn(*args) if args and not kw and all(isinstance(a, str) for a in args) else self.unknown('%s of unknown text' % f.name)
        for p in ('os.path', 'posixpath', 'ntpath'):
            for n in ('join', 'dirname', 'basename', 'normpath', 'split', 'splitext'):
                H['%s.%s' % (p, n)] = pure(getattr(posixpath, n))
            for n in ('isdir', 'exists'):
                H['%s.%s' % (p, n)] = lambda I, args, kw, st, f: posixpath.normpath(args[0] or '.') in self.dirs if isinstance(args[0], str) else self.unknown('folder not known')
            H[p + '.abspath'] = lambda I, args, kw, st, f: args[0] if isinstance(args[0], str) and args[0].startswith('/') else posixpath.normpath('/cwd/' + args[0]) if isinstance(args[0], str) else self.unknown('abspath')
        H['os.listdir'] = self.listdir
        for n in ('os.mkdir', 'os.makedirs'):
            H[n] = self.mkdir
        for n in ('open', 'builtins.open', 'io.open', 'codecs.open'):
            H[n] = self.open
        H['re.compile'] = self.compile
        for n in ('re.match', 're.search', 're.fullmatch'):
            H[n] = lambda I, args, kw, st, f, n=n: self.found(I, getattr(re, n[3:])(*args)) if all(isinstance(a, str) for a in args) else self.unknown('re')
        H['re.escape'] = pure(re.escape)
        H['str'] = H['builtins.str'] = self.str
        for n in ('os.remove', 'os.unlink', 'os.rmdir', 'os.rename', 'os.replace', 'shutil.rmtree', 'shutil.move', 'shutil.copy', 'shutil.copyfile', 'os.removedirs', 'os.truncate'):
            H[n] = lambda I, args, kw, st, f, n=n: self.ev.append(('other', n))

    def unknown(self, why):
        self.lost.append(why)
        return t.unk(why)

    def str(self, I, args, kw, st, f):
        v = args[0] if args else ''
        if isinstance(v, Node) and v.op == 'num' and v.args[0].denominator == 1:
            return str(int(v.args[0]))
        return I.np_str(args, kw, st)

    def listdir(self, I, args, kw, st, f):
        d = args[0] if args else '.'
        if d is None:
            d = '.'
        if not isinstance(d, str) or posixpath.normpath(d) not in self.dirs:
            return self.unknown('listing of unknown folder')
        return I.new_list(st, list(self.dirs[posixpath.normpath(d)]))

    def mkdir(self, I, args, kw, st, f):
        d = args[0]
        self.ev.append(('folder', d))
        if isinstance(d, str):
            d = posixpath.normpath(d)
            if d in self.dirs and not kw.get('exist_ok'):
                I.fails('folder exists')
            if f.name == 'os.mkdir' and (posixpath.dirname(d) or '.') not in self.dirs:
                I.fails('no parent folder')
            self.dirs[d] = []
            self.dirs.setdefault(posixpath.dirname(d) or '.', []).append(posixpath.basename(d))
        return None

    def open(self, I, args, kw, st, f):
        name = args[0] if args else kw.get('file')
        mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
        if not isinstance(name, str) or not isinstance(mode, str):
            self.lost.append('file name not known')
        n = 'sa.handle%d' % newkey()
        if mode != 'r':
            self.ev.append(('open', name, mode))
            if isinstance(name, str) and (posixpath.dirname(posixpath.normpath(name)) or '.') not in self.dirs:
                I.fails('no folder for the file')
        I.hooks[n + '.write'] = lambda I, args, kw, st, f: self.ev.append(('write', name, args[0]))
        I.hooks[n + '.writelines'] = lambda I, args, kw, st, f: self.unknown('writelines')
        I.hooks[n + '.read'] = lambda I, args, kw, st, f: s('contents')
        h = ExtV(n)
        h.file = name
        return h

    def found(self, I, m):
        if m is None:
            return None
        n = 'sa.match%d' % newkey()
        back = lambda v: v if isinstance(v, str) or v is None else self.unknown('groups')
        con = lambda a: int(a.args[0]) if isinstance(a, Node) else a
        I.hooks[n + '.group'] = lambda I, args, kw, st, f: back(m.group(*[con(a) for a in args]))
        return ExtV(n)

    def compile(self, I, args, kw, st, f):
        if not all(isinstance(a, str) for a in args):
            return self.unknown('re.compile')
        try:
            p = re.compile(args[0])
        except re.error:
            I.fails('bad regular expression')
            return t.unk('re.compile')
        n = 'sa.re%d' % newkey()
        for m in ('match', 'search', 'fullmatch'):
            I.hooks['%s.%s' % (n, m)] = lambda I, args, kw, st, f, m=m: self.found(I, getattr(p, m)(args[0])) if isinstance(args[0], str) else self.unknown('match')
        return ExtV(n)


def plain(v):
    if isinstance(v, Node) and v.op == 'num':
        return v.args[0]
    if isinstance(v, ExtV):
        return v.name
    return v


def verdict(ctx, rule, label, disk, c, got, want, msg):
    """compare effects/values; not judged when the interpretation lost track"""
    if disk.lost or c.I.gave_up:
        return ctx.undecided(rule, label, '; '.join(disk.lost[:2]) or 'interpretation incomplete')
    if c.raised:
        sure = [r for r in c.raised if r[0] is TRUE]
        if sure:
            return ctx.violation(rule, label, '%s: fails' % msg, c.where)
        return ctx.undecided(rule, label, 'may fail')
    ctx.count('effect sequences')
    if got == want:
        return ctx.ok(rule, label)
    if isinstance(got, Node) and got.unk:
        return ctx.undecided(rule, label, 'value not derived: %s' % t.show(got)[:80])
    ctx.violation(rule, label, '%s: %s instead of %s' % (msg, str(got)[:120], str(want)[:120]), c.where)


# ------------------------------------------------------------------ names
LISTS = [[], ['out001'], ['out001.csv', 'out007', 'x'], ['out010_a.txt', 'out9', 'out'], ['myout099', 'ou005', 'outer012', 'x', 'Out050'], ['out0003', 'outX4', 'out_0008'],
         ['a+b004', 'aab050', 'x.y006', 'xzy070', 'p(1)002', 'p1099', 'r[2]03', 'r204', 'c^005'], ['out099', 'out100']]


def stems(ctx):
    for pre in ('out', 'out_', 'a+b', 'x.y', 'p(1)', 'r[2]', 'c^', '(q'):
        for l in LISTS:
            for kw in ({}, {'overwrite': True}, {'inc': 5}, {'start': 3}, {'start': 0, 'zfill': 1}, {'zfill': 4}, {'inc': 5, 'overwrite': True, 'zfill': 4}):
                for path in (None, 'dd', 'none'):
                    if path == 'none' and (kw or l != LISTS[1]):
                        continue
                    d = Disk({'.': l if path is None else ['%s500' % pre], 'dd': l if path == 'dd' else ['%s500' % pre]})
                    c = Call(ctx, MOD, 'next_output_stem', [pre] + ([] if path is None else [path]), dict(kw), hooks=d.H, unroll=100)
                    lab = 'prefix %s, %s, %s in %s' % (pre, kw, l, path)
                    if path == 'none':
                        rejects(ctx, 'names', lab, c, {}, True, 'a folder that does not exist')
                        continue
                    nums = [int(m.group(1)) for m in (re.match(re.escape(pre) + r'(\d+)', q) for q in l) if m]
                    n = (max(nums) + (0 if kw.get('overwrite') else kw.get('inc', 1))) if nums else kw.get('start', 1)
                    verdict(ctx, 'names', lab, d, c, c.r if not isinstance(c.r, StrV) else '?', pre + str(n).zfill(kw.get('zfill', 3)), 'stem')


def fresh(ctx, attrs, disk, hooks=None):
    H = dict(disk.H)
    H.update(hooks or {})
    o = Inst(ctx, MOD, BASE, hooks=H, unroll=200)
    o.set(**attrs)
    return o


def where_to(ctx):
    """folder and stem of all output"""
    for mk, ov, di, pre, l in itertools.product((True, False, 'unset'), (True, False, None), (None, 'dd', 'dd/sub'), ('out', 'x.y', None), ([], ['out0004_a.csv', 'x.y0009', 'out0011'])):
        dirs = {'.': l, 'dd': ['sub'] if di != 'dd' else l, 'dd/sub': l}
        d = Disk(dirs)
        o = fresh(ctx, dict(prefix=pre, directory=di, overwrite=ov), d)
        if mk != 'unset':
            o.set(create_directory=mk)
        p = pre or 'out'
        nums = [int(m.group(1)) for m in (re.match(re.escape(p) + r'(\d+)', q) for q in l) if m]
        stem = p + str((max(nums) + (0 if ov else 1)) if nums else 1).zfill(4)
        folder = posixpath.normpath(posixpath.join(di or '.', stem)) if mk else di or '.'
        want = (posixpath.normpath(posixpath.join(folder, stem)), [folder] if folder not in dirs else [])
        c = o.call('_determine_output_stem')
        v = o.st.store[o.o.key].get('_file_stem')
        got = posixpath.normpath(v) if isinstance(v, str) else '?'
        verdict(ctx, 'names', 'create_directory=%s overwrite=%s directory=%s prefix=%s among %s' % (mk, ov, di, pre, l), d, c,
                (got, [posixpath.normpath(e[1]) if isinstance(e[1], str) else '?' for e in d.ev if e[0] == 'folder']), want, 'stem of the output')


# ------------------------------------------------------------------ tables
class Frame(object):
    """pandas data frames: their parts are remembered"""

    def __init__(self, disk):
        self.disk = disk
        self.n = 0
        disk.H['pandas.DataFrame'] = self.new
        disk.H['pandas.Series'] = lambda I, args, kw, st, f: args[0] if args else None

    def new(self, I, args, kw, st, f):
        a = dict(zip(('data', 'index', 'columns'), args))
        a.update(kw)
        n = 'sa.frame%d' % newkey()
        part = [('data', plain(a.get('data'))), ('columns', plain(a.get('columns')))]
        if a.get('index') is not None:
            part.append(('index', plain(a['index'])))

        def insert(I, args, kw, st, f):
            b = dict(zip(('loc', 'column', 'value'), args))
            b.update(kw)
            part.append(('column', plain(b.get('loc')), plain(b.get('column')), plain(b.get('value'))))

        def to_csv(I, args, kw, st, f):
            b = {k: plain(v) for k, v in kw.items()}
            h = args[0] if args else kw.get('path_or_buf')
            b.pop('path_or_buf', None)
            if b.get('index_label') is not None:
                b['index_label'] = 'labelled'
            self.disk.ev.append(('table', getattr(h, 'file', '?'), list(part), tuple(sorted(b.items(), key=str))))
        I.hooks[n + '.insert'] = insert
        I.hooks[n + '.to_csv'] = to_csv
        return ExtV(n)


def frames(ctx):
    for col, row, lab in itertools.product((False, True), (False, True), (None, 'depth')):
        d = Disk()
        F = Frame(d)
        kw = {}
        if col:
            kw['column_labels'] = ExtV('sa.cols')
        if row:
            kw['row_labels'] = ExtV('sa.rows')
        if lab:
            kw['row_labels_label'] = lab
        c = Call(ctx, MOD, 'make_array_into_dataframe', [ExtV('sa.data')], kw, hooks=d.H)
        h = c.r.name if isinstance(c.r, ExtV) else None
        if h and h + '.to_csv' in c.I.hooks:
            c.I.hooks[h + '.to_csv'](c.I, [ExtV('x')], {}, c.st, None)
        got = [e[2] for e in d.ev]
        want = [[('data', 'sa.data'), ('columns', 'sa.cols' if col else None)] + ([('column', 0, lab or 'item', 'sa.rows')] if row else [])]
        verdict(ctx, 'tables', 'frame%s%s%s' % (', column labels' * col, ', row labels' * row, ', label' * bool(lab)), d, c, got, want, 'table')


def tables(ctx):
    full = dict(data='D', name='_n', row_labels='R', row_labels_label='depth', column_labels='C', header='Head\nline 2', df_kwargs={'sep': ';'})

    def entry(drop=(), tag=''):
        e = {}
        for k, v in full.items():
            if k in drop:
                continue
            e[k] = dict(v) if isinstance(v, dict) else ExtV('sa.%s%s' % (v, tag)) if k in ('data', 'row_labels', 'column_labels') else v + tag if k == 'name' else v
        return e
    drops = [()] + [(k,) for k in full] + [('row_labels', 'column_labels', 'header'), tuple(k for k in full if k != 'data')]
    lists = [[entry(q)] for q in drops] + [[entry((), 'a'), entry(('data',), 'b'), entry(('header',), 'c')], [], [entry((), 'a'), entry((), 'b'), entry(('row_labels', 'df_kwargs'), 'c')]]
    for l in lists:
        for single in ((False, True) if len(l) == 1 else (False,)):
            for mk, di, stem, ext, exist in [('unset', None, None, None, False), (True, 'dd', 'st', '.dat', False), (False, 'dd', 'st', '.txt', False), (True, 'dd', 'st', None, True), (False, 'new', 'st', None, False),
                                             (True, 'new', 'st', None, False), (False, None, 'st', None, False)]:
                if l not in lists[:1] + lists[-3:] and (mk, di) not in (('unset', None), (False, 'dd')):
                    continue
                d = Disk({'.': [], 'dd': ['st'] if exist else []})
                if exist:
                    d.dirs['dd/st'] = []
                Frame(d)
                kw = {}
                if mk != 'unset':
                    kw['create_directory'] = mk
                for k, v in (('directory', di), ('file_stem', stem), ('ext', ext)):
                    if v is not None:
                        kw[k] = v
                l2 = [dict(e, **({'df_kwargs': dict(e['df_kwargs'])} if 'df_kwargs' in e else {})) for e in l]
                c = Call(ctx, MOD, 'save_grid_data_to_file', [l2[0] if single else l2], kw, hooks=d.H, unroll=100)
                st_ = stem or 'out_000'
                base = di or '.'
                folder = posixpath.normpath(posixpath.join(base, st_)) if mk else base
                want = []
                known = set(d.dirs) - set(e[1] for e in d.ev if e[0] == 'folder')
                if l:
                    if di == 'new':
                        want.append(('folder', 'new'))
                    if mk and not exist:
                        want.append(('folder', folder))
                for e in l:
                    if e.get('data') is None:
                        continue
                    fn = posixpath.normpath(posixpath.join(folder, st_ + e.get('name', '') + (ext or '.csv')))
                    want.append(('open', fn, 'w'))
                    if e.get('header') is not None:
                        want.append(('write', fn, e['header'] + '\n'))
                    parts = [('data', e['data'].name), ('columns', e['column_labels'].name if 'column_labels' in e else None)]
                    if 'row_labels' in e:
                        parts.append(('column', 0, e.get('row_labels_label', 'item'), e['row_labels'].name))
                    want.append(('table', fn, parts, tuple(sorted(list(e.get('df_kwargs', {}).items()) + [('index_label', 'labelled')], key=str))))
                norm = lambda v: posixpath.normpath(v) if isinstance(v, str) else '?'
                got = [(e[0], norm(e[1])) + tuple(e[2:]) for e in d.ev]
                # pieces written one after the other are one text
                i = 0
                while i + 1 < len(got):
                    if got[i][0] == got[i + 1][0] == 'write' and got[i][1] == got[i + 1][1] and isinstance(got[i][2], str) and isinstance(got[i + 1][2], str):
                        got[i:i + 2] = [(got[i][0], got[i][1], got[i][2] + got[i + 1][2])]
                    else:
                        i += 1
                lab = '%s%s, create_directory=%s directory=%s stem=%s ext=%s%s' % ([sorted(e) for e in l], ' not in a list' * single, mk, di, stem, ext, ', existing' * exist)
                verdict(ctx, 'tables', lab[:230], d, c, got, want, 'files')
                # the tables handed over are unchanged
                a = c.args0 if hasattr(c, 'args0') else None


def untouched(ctx):
    """the tables handed over can be written again"""
    d = Disk({'.': [], 'dd': []})
    Frame(d)
    o = fresh(ctx, {}, d)
    mk = lambda q: dict(data=ExtV('sa.D' + q), name='_' + q, row_labels=ExtV('sa.R'), row_labels_label='depth', column_labels=ExtV('sa.C'), header='h', df_kwargs={'sep': ';'})
    o.set(_grid_data_dicts=[mk('a'), mk('b')], save_data_to_file=True, _input_text=None, create_directory=False, directory='dd', prefix='out')
    o.set(_attributes=[])
    c = o.call('_save_data')
    first = [e for e in d.ev if e[0] == 'table']
    del d.ev[:]
    c = o.call('_save_data')
    second = [e for e in d.ev if e[0] == 'table']
    key = lambda l: [(e[2], e[3]) for e in l]
    verdict(ctx, 'tables', 'written twice', d, c, key(second), key(first), 'tables of the second call of _save_data')
    if len(first) == 2:
        ctx.ok('tables', 'written twice: first')
    else:
        ctx.undecided('tables', 'written twice: first', 'tables not recorded')


# ------------------------------------------------------------------ data and figures of a program
def save_data(ctx):
    for flag, txt, grid, mk, di, exts in itertools.product((True, False, 'unset'), ('input text', None), (True, None), (True, False), (None, 'dd'), (True, False)):
        d = Disk({'.': ['out0002'], 'dd': ['out0005_x.csv']})
        Frame(d)
        o = fresh(ctx, dict(_input_text=txt, _grid_data_dicts=[dict(data=ExtV('sa.D'), name='_n')] if grid else None, create_directory=mk, directory=di, prefix='out', overwrite=False,
                            _attributes=['aa', 'bb'], aa=num(3), bb=None), d, {MOD + '.string_of_object_attributes': lambda I, args, kw, st, f: 'PARSED'})
        if flag != 'unset':
            o.set(save_data_to_file=flag)
        if exts:
            o.set(input_ext='.inp', data_ext='.dat')
        c = o.call('_save_data')
        want = []
        if flag is True:
            stem = 'out0003' if di is None else 'out0006'
            folder = posixpath.join(di or '.', stem) if mk else di or '.'
            nm = posixpath.normpath(posixpath.join(folder, stem))
            ie, de = ('.inp', '.dat') if exts else ('.py', '.csv')
            if mk:
                want.append(('folder', posixpath.normpath(folder)))
            if txt:
                want += [('open', nm + '_input_original' + ie, 'w'), ('write', nm + '_input_original' + ie, txt)]
            want += [('open', nm + '_input_parsed' + ie, 'w'), ('write', nm + '_input_parsed' + ie, 'PARSED')]
            if grid:
                want += [('open', nm + '_n' + de, 'w'), ('table', nm + '_n' + de, [('data', 'sa.D'), ('columns', None)], (('index_label', 'labelled'),))]
        norm = lambda v: posixpath.normpath(v) if isinstance(v, str) else '?'
        got = [(e[0], norm(e[1])) + tuple(e[2:]) for e in d.ev]
        verdict(ctx, 'on request', 'save_data_to_file=%s, text=%s, tables=%s, create_directory=%s, directory=%s, own extensions=%s' % (flag, txt, grid, mk, di, exts), d, c, got, want, 'files')


def save_figures(ctx):
    for flag, figs, ext, stem in itertools.product((True, False, 'unset'), (None, [], ['one'], ['one', ''], ['', 'two', 'three'], 'single'), (None, '.png'), (None, 'dd/st')):
        d = Disk({'.': [], 'dd': []})

        def fig(label):
            n = 'sa.fig%d' % newkey()
            d.H[n + '.get_label'] = lambda I, args, kw, st, f: label
            d.H[n + '.savefig'] = lambda I, args, kw, st, f: d.ev.append(('figure', args[0] if args else kw.get('fname'), n))
            f = ExtV(n)
            return f
        F = None if figs is None else fig('lone') if figs == 'single' else [fig(q) for q in figs]
        o = fresh(ctx, dict(_figures=F, _file_stem=stem, prefix='out', directory='dd', overwrite=False, create_directory=False), d)
        if flag != 'unset':
            o.set(save_figures_to_file=flag)
        if ext:
            o.set(figure_ext=ext)
        c = o.call('_save_figures')
        want = []
        if flag is True and F is not None:
            for i, q in enumerate([F] if figs == 'single' else F):
                l = 'lone' if figs == 'single' else figs[i]
                want.append(('figure', (stem or 'dd/out0001') + '_' + (l or 'Figure_%02d' % i) + (ext or '.eps'), q.name))
        norm = lambda v: posixpath.normpath(v) if isinstance(v, str) else '?'
        got = [(e[0], norm(e[1])) + tuple(e[2:]) for e in d.ev]
        verdict(ctx, 'on request', 'save_figures_to_file=%s, figures %s, ext %s, stem %s' % (flag, figs, ext, stem), d, c, got, want, 'figures')


PROGRAMS = [('geotecha.speccon.speccon1d_vr', 'Speccon1dVR'), ('geotecha.speccon.speccon1d_vrw', 'Speccon1dVRW'), ('geotecha.speccon.speccon1d_vrc', 'Speccon1dVRC'),
            ('geotecha.speccon.speccon1d_unsat', 'Speccon1dUnsat'), ('geotecha.consolidation.schiffmanandstein1970', 'SchiffmanAndStein1970'),
            ('geotecha.consolidation.nogamiandli2003', 'NogamiAndLi2003')]
STEPS = ['check_input_attributes', '_calc_derived_properties', 'make_time_independent_arrays', 'make_time_dependent_arrays', 'make_output', '_calc_Eigs', '_calc', 'produce_plots', '_save_data', '_save_figures']


def gate(ctx, mod, cls):
    """what a whole run leaves behind"""
    for data, figs, show in itertools.product((True, False, 'unset'), repeat=3):
        d = Disk({'.': []})
        log = []
        o = Inst(ctx, mod, cls, hooks=dict(d.H), unroll=200)
        st = o.st.store[o.o.key]
        st = dict(st)
        for k, v in (('save_data_to_file', data), ('save_figures_to_file', figs), ('show_figures', show)):
            if v == 'unset':
                continue
            st[k] = v
        o.st.store[o.o.key] = st
        c0 = ctx.p.resolve(mod, cls)
        for k in (ctx.p.mro(c0[1], c0[2])):
            m_, cn = k
            for b in cn.body:
                if isinstance(b, ast.FunctionDef) and b.name not in ('make_all', '__init__', '_setup') and not b.name.startswith('__'):
                    def h(I, args, kw, st, f, n=b.name):
                        log.append(n)
                        return None
                    o.I.hooks['%s.%s.%s' % (m_.name, cn.name, b.name)] = h
        for n in ('matplotlib.pyplot.show', 'pylab.show'):
            o.I.hooks[n] = lambda I, args, kw, st, f: log.append('show')
        for n, v in (('tpor', None), ('z', None), ('t', None)):
            pass
        c = o.call('make_all')
        lab = '%s: save_data_to_file=%s save_figures_to_file=%s show_figures=%s' % (cls, data, figs, show)
        T = lambda v: v is True
        want = {'_save_data': T(data), 'produce_plots': T(figs) or T(show), '_save_figures': T(figs), 'show': T(show)}
        got = {k: k in log for k in want}
        order_ok = all(log.index(a) < log.index(b) for a, b in (('produce_plots', '_save_figures'), ('produce_plots', 'show')) if a in log and b in log)
        verdict(ctx, 'on request', lab, d, c, (got, order_ok), (want, True), 'a run')


# ------------------------------------------------------------------ text of the parsed input
def parsed_text(ctx):
    VAL = {'aa': num(3), 'bb': None, 'cc': 'plain', 'dd': "it's", 'ee': 'back\\slash', 'ff': 'two\nlines', 'gg': True, 'hh': False, 'ii': 'say "no"'}
    show = {'aa': '3', 'gg': 'True', 'hh': 'False'}
    for bottom in (True, False):
        for names in (['aa', 'bb', 'cc'], ['bb', 'aa', 'zz', 'cc'], ['dd'], ['ee'], ['ff'], ['ii'], ['gg', 'hh'], [], ['cc', 'aa', 'bb', 'zz', 'gg']):
            for prefix in ('unset', None, 'numpy.'):
                log = []
                H = {'numpy.set_string_function': lambda I, args, kw, st, f: log.append(plain(args[0])), 'numpy.set_printoptions': lambda I, args, kw, st, f: log.append('options')}
                d = Disk()
                H['str'] = H['builtins.str'] = d.H['str']
                H['repr'] = H['builtins.repr'] = lambda I, args, kw, st, f: 'ARR' if isinstance(args[0], ExtV) and args[0].name == 'sa.array' else I.np_repr(args, kw, st)
                o = Inst(ctx, MOD, BASE, hooks=H, unroll=200)
                o.set(**{k: v for k, v in VAL.items() if k in names})
                r = ctx.p.func(MOD, 'string_of_object_attributes')
                if r is None:
                    return ctx.undecided('parsed input', 'string_of_object_attributes', 'not found')
                I, st = o.I, o.st
                kw = dict(none_at_bottom=bottom)
                if prefix != 'unset':
                    kw['numpy_array_prefix'] = prefix
                c = Call.__new__(Call)
                c.ctx, c.I, c.st, c.name, c.where = ctx, I, st, 'string_of_object_attributes', '%s:string_of_object_attributes' % r[0].rel
                I.raised = []
                c.r = I.run(lambda: I.call(FuncV(r[0], r[1]), [o.o, I.new_list(st, list(names))], kw, st))
                c.raised = list(I.raised)
                lab = 'attributes %s, none_at_bottom=%s, numpy_array_prefix=%s' % (names, bottom, prefix)
                txt = ''.join(p if isinstance(p, str) else str(int(p[0].args[0])) if isinstance(p[0], Node) and p[0].op == 'num' else repr(p[0]) if isinstance(p[0], bool) or p[0] is None else '?'
                              for p in (c.r.parts or ['?'])) if isinstance(c.r, StrV) else c.r if isinstance(c.r, str) else '?'
                lines = [q for q in txt.split('\n') if q]
                one = lambda n: '%s = %s' % (n, show.get(n) or repr(VAL.get(n)))
                order = ([n for n in names if VAL.get(n) is not None] + [n for n in names if VAL.get(n) is None]) if bottom else names
                if '?' in txt:
                    ctx.undecided('parsed input', lab, 'text not derived')
                else:
                    verdict(ctx, 'parsed input', lab, d, c, lines, [one(n) for n in order], 'text')
                on = [q for q in log if q is not None]
                if on and isinstance(on[0], FuncV):
                    I.raised = []
                    c.r = I.run(lambda: I.call(on[0], [ExtV('sa.array')], {}, st))
                    c.raised = list(I.raised)
                    if not isinstance(c.r, str) or 'ARR' not in c.r:
                        ctx.undecided('parsed input', 'arrays, ' + lab, 'printing of arrays not derived')
                    else:
                        verdict(ctx, 'parsed input', 'arrays, ' + lab, d, c, c.r, ('np.' if prefix == 'unset' else prefix or '') + 'ARR', 'arrays are printed')
                verdict(ctx, 'left as it was', 'printing of arrays, ' + lab, d, c, (len(on) >= 1, bool(log) and log[-1] is None), (True, True), 'array printing changed for the text and back afterwards')


# ------------------------------------------------------------------ working folder
class Yield(ast.NodeTransformer):
    def __init__(self, fail):
        self.fail, self.n = fail, 0

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Yield):
            self.n += 1
            call = ast.Expr(ast.Call(ast.Attribute(ast.Name('os', ast.Load()), 'sa_body', ast.Load()), [], []))
            new = [call] + ([ast.Raise(ast.Call(ast.Name('ValueError', ast.Load()), [], []), None)] if self.fail else [])
            return [ast.fix_missing_locations(ast.copy_location(x, node)) for x in new]
        return node


def folder(ctx):
    r = ctx.p.func(MOD, 'working_directory')
    if r is None:
        return ctx.undecided('left as it was', 'working_directory', 'not found')
    where = '%s:working_directory' % r[0].rel
    for fail in (False, True):
        lab = 'working folder, body %s' % ('fails' if fail else 'ends')
        y = Yield(fail)
        body = y.visit(copy.deepcopy(r[1]))
        if y.n != 1:
            ctx.undecided('left as it was', lab, 'not a generator with one yield')
            continue
        body.decorator_list = []
        at = ['/start']
        seen = []
        def chdir(I, args, kw, st, f):
            at[0] = args[0]
        H = {'os.getcwd': lambda I, args, kw, st, f: at[0], 'os.chdir': chdir, 'os.sa_body': lambda I, args, kw, st, f: seen.append(at[0]), 'os.path.abspath': lambda I, args, kw, st, f: args[0]}
        o = Inst(ctx, MOD, BASE, hooks=H)
        I, st = o.I, o.st
        I.run(lambda: I.call(FuncV(r[0], body), ['/target'], {}, st))
        if seen != ['/target']:
            ctx.violation('left as it was', lab, 'the body runs in %s instead of the folder given' % seen, where)
        elif at[0] != '/start':
            ctx.violation('left as it was', lab, 'the working folder stays %s' % at[0], where)
        else:
            ctx.ok('left as it was', lab)


# ------------------------------------------------------------------ input files from the command line
class Ns(object):
    pass


def command_line(ctx):
    DIRS = {'/cwd': ['c.py', 'd.txt', 'inputoutput.py'], '/a': ['a1.py', 'a2.txt', 'a3.py'], '/b': ['b.py'], '/e': ['e.txt']}
    import fnmatch

    def want(fn, di, pat):
        if (di is None) != (pat is None) or (fn is not None and di is not None):
            return 'error'
        if di is not None:
            dd = di or ['/cwd']
            if any(x not in DIRS for x in dd):
                return 'error'
            out = [posixpath.join(x, q) for x in dd for q in DIRS[x] if fnmatch.fnmatch(q, pat) and q != 'inputoutput.py']
            return out or 'error'
        if fn is not None:
            return [q if q.startswith('/') else '/cwd/' + q for q in fn]
        return ['/picked/one.py']
    cases = [(None, None, None), (['x.py'], None, None), (['/p/x.py', 'y.py', '/p/z.py'], None, None), (['x.py'], ['/a'], '*.py'), (['x.py'], [], '*.py'), (None, ['/a'], None), (None, None, '*.py'), (['x.py'], None, '*.py'),
             (None, ['/a'], '*.py'), (None, ['/a', '/b'], '*.py'), (None, [], '*.py'), (None, ['/a', '/nowhere'], '*.py'), (None, ['/e'], '*.py'), (None, ['/a'], '*.txt'), (None, [], 'inp*')]
    for (fn, di, pat), bad in [(c, None) for c in cases] + [(cases[2], 0), (cases[2], 1), (cases[2], 2)]:
        d = Disk(DIRS)
        done, level, at = [], [10], ['/cwd']
        H = dict(d.H)
        H['os.getcwd'] = lambda I, args, kw, st, f: at[0]

        def chdir(I, args, kw, st, f):
            at[0] = args[0]
        H['os.chdir'] = chdir
        H[MOD + '.get_filepaths'] = lambda I, args, kw, st, f: I.new_list(st, ['/picked/one.py'])
        H[MOD + '.working_directory'] = lambda I, args, kw, st, f: at.__setitem__(0, args[0])
        H['fnmatch.filter'] = lambda I, args, kw, st, f: I.new_list(st, fnmatch.filter(I.concrete_iter(args[0], st), args[1])) if I.concrete_iter(args[0], st) is not None and isinstance(args[1], str) else d.unknown('filter')
        H['fnmatch.fnmatch'] = lambda I, args, kw, st, f: fnmatch.fnmatch(*args) if all(isinstance(a, str) for a in args) else d.unknown('fnmatch')
        H['argparse.ArgumentParser'] = lambda I, args, kw, st, f: ExtV('sa.parser')
        H['sa.parser.add_argument'] = lambda I, args, kw, st, f: None
        H['sa.parser.error'] = lambda I, args, kw, st, f: I.fails('usage')
        H['logging.getLogger'] = lambda I, args, kw, st, f: ExtV('sa.log')
        H['sa.log.setLevel'] = lambda I, args, kw, st, f: level.append(plain(args[0]))
        for n in ('info', 'exception', 'warning', 'error', 'debug'):
            H['logging.' + n] = lambda I, args, kw, st, f: None
            H['sa.log.' + n] = lambda I, args, kw, st, f: None
        H['time.time'] = lambda I, args, kw, st, f: s('now')
        H['time.strftime'] = lambda I, args, kw, st, f: 'time'
        H[MOD + '.hms_string'] = lambda I, args, kw, st, f: 'time'

        def process(I, args, kw, st, f):
            done.append((args[-1], at[0]))
            if bad is not None and len(done) == bad + 1:
                I.fails('process')
        H[MOD + '.GenericInputFileArgParser.process'] = process
        o = Inst(ctx, MOD, 'GenericInputFileArgParser', args=[ExtV('sa.program')], hooks=H, unroll=200)

        def parse(I, args, kw, st, f):
            n = ObjV(newkey(), ClassV(o.o.cls.mod, ast.parse('class Namespace: pass').body[0]))
            st.store[n.key] = {'__obj__': True, 'filename': None if fn is None else I.new_list(st, list(fn)), 'directory': None if di is None else I.new_list(st, list(di)), 'pattern': pat}
            return n
        o.I.hooks['sa.parser.parse_args'] = parse
        o.I.hooks['sa.log.level'] = None
        c = o.call('main', ['x'])
        lab = 'filename=%s directory=%s pattern=%s%s' % (fn, di, pat, '' if bad is None else ', file %d fails' % (bad + 1))
        w = want(fn, di, pat)
        if w == 'error':
            if d.lost or c.I.gave_up:
                ctx.undecided('command line', lab, str(d.lost)[:80])
            elif any(r[0] is TRUE for r in c.raised) and not done:
                ctx.ok('command line', lab)
            else:
                ctx.violation('command line', lab, 'options that are refused lead to processing of %s' % [q[0] for q in done], c.where)
            continue
        verdict(ctx, 'command line', lab, d, c, done, [(q, posixpath.dirname(q)) for q in w], 'files processed and their working folder')


def check(ctx):
    ctx.rule('names', 'number and folder of new output: the number after the highest one used with the prefix (the highest one when overwriting), in the documented folder')
    ctx.rule('tables', 'tables go to one file each, header first, with their labels, and are left as they were')
    ctx.rule('on request', 'data, figures and plots appear iff asked for, under the documented names')
    ctx.rule('parsed input', 'the parsed input has one line per attribute that reads back as its value')
    ctx.rule('left as it was', 'working folder and array printing are restored')
    ctx.rule('command line', 'the files selected by the options are processed in order, each in its own folder, also after a file that fails; contradicting options are refused')
    ctx.assumptions += ['folder contents and prefixes by representative classes', 'pandas writes the frames it is given', 'interrupts from outside (KeyboardInterrupt) are not considered']
    ctx.parallel([lambda: stems(ctx), lambda: where_to(ctx), lambda: frames(ctx), lambda: tables(ctx), lambda: untouched(ctx), lambda: save_data(ctx), lambda: save_figures(ctx),
                  lambda: parsed_text(ctx), lambda: folder(ctx), lambda: command_line(ctx)] + [lambda a=a: gate(ctx, *a) for a in PROGRAMS])

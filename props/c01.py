"""what the caller hands in is left as it is: effect analysis of every function of the package through all aliases"""
import ast
from sa import alias

TECHNIQUE = ('Interprocedural may-alias and effect analysis (flow-sensitive within a function, summaries to a fixpoint across the package): every in-place change (item, attribute and augmented assignment, '
             'changing methods and functions, output arguments, del) is traced to the parameters, constructor arguments kept by objects, input attributes, class-level and module-level objects it reaches '
             'through views, slices, elements, helpers and attributes; calls that change process-wide settings.')

SURFACE = ('matplotlib', 'pyplot', 'axes', 'figure')
# an object that is there to hold results
RESULTS = {('EPUS', 'stp'): 'the stress path is documented to hold the results of its points'}
OBJECTS = {('NogamiAndLi2003', 'nh'): 'without horizontal drainage there is one radial term, whatever was asked for'}
SETS = {('PrefixNumpyArrayString.turn_on', 'numpy.set_string_function'): 'documented: changes how numpy prints until turned off',
        ('PrefixNumpyArrayString.turn_off', 'numpy.set_string_function'): 'documented',
        ('working_directory', 'os.chdir'): 'documented; C07 decides that it is undone',
        ('Talbot.__init__', 'mpmath.mp.dps'): 'documented: the precision is global',
        ('apply_markevery_to_sequence_of_lines', 'random.seed'): 'documented: only with a seed given'}


def check(ctx):
    ctx.rule('arguments', 'no function changes an object it was given (directly, through a view, an element or a helper) or one of its default values')
    ctx.rule('constructor arguments', 'no object changes an argument of its constructor that it kept')
    ctx.rule('input attributes', 'calculations and plots leave the input attributes of an analysis object as they are (an array of the same values is the same)')
    ctx.rule('shared objects', 'no function changes a module-level or class-level container')
    ctx.rule('settings', 'no function changes process-wide numerical settings, the random state, warning filters or the working directory, unless that is what it is documented to do')
    ctx.assumptions += ['augmented assignment to a parameter is a change in place when the parameter is documented (or used) as array or list, or is a view of one',
                        'calls of methods on objects of unknown class change that object only under the names of the known changing methods',
                        'matplotlib figures and axes that are drawn in, and objects whose attributes a loader sets (setattr), are meant to change']
    an = alias.Analysis(ctx.p)
    ctx.count('functions analysed', len(an.fns))
    ctx.count('in-place changes traced', an.sites)
    ctx.count('calls followed or judged', an.calls)
    for (mod, qual), f in sorted(an.fns.items()):
        where = (f.mod.rel, f.node.lineno)
        ch = {}
        for (k, n), (line, how) in f.changes.items():
            ch[(k, n)] = (line, how)
        for q in f.all_params():
            if q == f.selfname:
                continue
            lab = '%s.%s(%s)' % (mod, qual, q)
            c = ch.pop(('p', q), None)
            if c is None or (qual, q) in alias.DOCUMENTED or q == f.kwarg and c[1].startswith('.pop'):
                ctx.ok('arguments', lab)
            elif c[1] == 'attribute assignment' and (q in ('ax', 'fig') or any(w in (f.docs.get(q) or '').lower() for w in SURFACE)):
                ctx.ok('arguments', lab)
            else:
                ctx.violation('arguments', lab, 'the argument %s of the caller is changed (%s)' % (q, c[1]), (f.mod.rel, c[0]))
        if f.cls is not None:
            for a in sorted(an.inputs(f.mod, f.cls)):
                if f.node.name in ('__init__', '_setup'):
                    break
                lab = '%s.%s: %s' % (mod, qual, a)
                c = ch.pop(('s', a), None)
                if c is None or (f.cls.name, a) in OBJECTS and c[1] == 'assigned another value':
                    ctx.ok('input attributes', lab)
                else:
                    ctx.violation('input attributes', lab, 'the input attribute %s of the object is changed (%s)' % (a, c[1]), (f.mod.rel, c[0]))
        rest = {k: v for k, v in ch.items() if k[0] != 's'}
        kept = {k: v for k, v in rest.items() if k[0] == 'i' and (f.cls.name, k[1]) not in RESULTS}
        lab = mod + '.' + qual
        for (k, n), (line, how) in sorted(kept.items()):
            ctx.violation('constructor arguments', '%s: %s' % (lab, n), 'the constructor argument %s of the caller is changed (%s)' % (n, how), (f.mod.rel, line))
        if not kept and f.cls is not None:
            ctx.ok('constructor arguments', lab)
        shared = {k: v for k, v in rest.items() if k[0] in 'gc'}
        for (k, n), (line, how) in sorted(shared.items()):
            ctx.violation('shared objects', '%s: %s' % (lab, n), 'the %s-level object %s is changed (%s)' % ('class' if k == 'c' else 'module', n, how), (f.mod.rel, line))
        if not shared:
            ctx.ok('shared objects', lab)
        bad = {k: v for k, v in f.settings.items() if (qual, k) not in SETS}
        for k, line in sorted(bad.items()):
            ctx.violation('settings', '%s: %s' % (lab, k), '%s is changed for the whole process' % k, (f.mod.rel, line))
        if not bad:
            ctx.ok('settings', lab)

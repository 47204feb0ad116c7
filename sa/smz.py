"""hooks shared by the smear zone checks"""
from . import terms as t

SZ = 'geotecha.consolidation.smear_zones'


def gdarcy():
    def gsym(interp, args, kw_, st, f):
        z = [interp.as_array(a, st) for a in args[:3]]
        g = 'g' if f.node.name == '_g' else 'gbar'
        if any(type(q).__name__ == 'Arr' and interp.axes(q, st) for q in z):
            return t.unk('array g')
        return t.mk('call', g, *[interp.node(q, st) for q in args[:3]])
    return {SZ + '._g': gsym, SZ + '._gbar': gsym}

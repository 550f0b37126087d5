"""Verification suites (translation unit + contract table) and the property -> obligation mapping."""
import importlib

# name -> (translation unit, extra flags, module with SPECS and make_runner(mod, layout))
SUITES = {
    'str': ('str.cpp', (), 'bdv.strspec'),
    'arr': ('arr.cpp', (), 'bdv.arrspec'),
    'flat': ('flat.cpp', (), 'bdv.flatspec'),
    'stream': ('stream.cpp', (), 'bdv.streamspec'),
    'text': ('text.cpp', (), 'bdv.textspec'),
    'wipe': ('wipe.cpp', (), 'bdv.wipespec'),
    'cls': ('cls.cpp', (), 'bdv.clsspec'),
    'hash': ('hash.cpp', (), 'bdv.hashspec'),
    'tcl': ('tcl.cpp', (), 'bdv.tclspec'),
    'file': ('file.cpp', (), 'bdv.filespec'),
}

SAFE = {'mem', 'inv', 'ub', 'ctype', 'term'}
ALL = None       # every obligation of the selected operations

# property -> list of (suite, predicate on spec, tags)
anyop = lambda s: True


def grp(*g):
    return lambda s: bool(s.props & set(g))


RCA = ('str', 'arr')         # suites over the reference counted containers


def over(sel, tags, suites=RCA):
    return [(su, sel, tags) for su in suites]


def like_arr(g):
    """operations on arrays of class type whose plain counterpart belongs to property g"""
    return lambda s: g in load_specs('arr').SPECS[s.name].props


def may_throw(s):
    return any(w in s.name for w in ('insert', 'replace', 'at', 'find', 'write'))


VALUE = {'func', 'perm', 'exc'}
PROPS = {
    'C01': over(anyop, {'perm'}, RCA + ('cls', 'text')),
    'C02': over(anyop, SAFE, RCA + ('cls', 'text')),
    'C03': over(anyop, {'rc', 'leak', 'mem', 'race'}, RCA + ('cls',)),
    'C04': over(grp('C04'), ALL, RCA + ('text',)) + over(like_arr('C04'), VALUE, ('cls',)),
    'C05': over(grp('C05'), ALL) + over(like_arr('C05'), VALUE, ('cls',)),
    'C06': over(anyop, {'exc'}) + over(may_throw, {'exc'}, ('cls',)),
    'C07': over(anyop, {'hash'}, RCA + ('cls',)),
    'C08': over(grp('C08'), ALL) + over(like_arr('C08'), VALUE, ('cls',)),
    'C09': over(grp('C09'), ALL) + over(grp('C09'), ALL, ('text',)) + over(like_arr('C09'), VALUE, ('cls',)),
    'C10': over(grp('C10'), ALL, ('str',)),
    'C11': over(grp('C11'), ALL, ('flat',)),
    'C12': over(grp('C12'), ALL, ('flat',)),
    'C13': over(grp('C13'), ALL, ('file',)),
    # Stream relies on what the String operations it calls do with their storage: those facts are part of its check
    'C14': over(grp('C14'), ALL, ('stream',)) + [('str', lambda s: s.rep is not None, {'rep'})],
    'C15': over(grp('C15'), ALL, ('stream',)),
    'C16': over(grp('C16'), ALL, ('hash',)),
    'C17': over(grp('C17'), ALL, ('tcl',)),
    'C18': over(grp('C18'), ALL, ('tcl',)),
    'C24': over(grp('C24'), ALL, ('tcl',)),
    'C25': over(grp('C25'), ALL, ('tcl',)),
    'C19': over(grp('C19'), ALL, ('text',)),
    'C20': over(grp('C20'), ALL, ('text',)),
    'C26': over(grp('C26'), ALL, ('text',)),
    'C21': over(grp('C21'), ALL, ('wipe',)),
    'C22': over(grp('C22'), ALL, ('cls',)),
    'C23': over(grp('C23'), ALL, ('str',)),
}


def load_specs(suite):
    return importlib.import_module(SUITES[suite][2])

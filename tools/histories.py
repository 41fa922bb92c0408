"""Families of call alphabets: the inputs of MC_Hist.

A profile is {"nobj", "init": calls made first, "alpha": the calls, "len": the
longest history, "deep": every history of that length (otherwise histories
that lead to the same state are one), "probe": names to look up, "tail": calls
made at the end of every replayed history}.
"""
from profiles import KD, B

PROBE = ['', '-', '--', '--aa', '--bb', '--help', '--zz', '-a', '-b', '-c', '-h', 'p', 'q', 'aa', 'a']


def op(_name, o=0, **kw):
    return dict(dict(op=_name, o=o), **kw)


def add(*names, **kw):
    return op('add', kw.get('o', 0), names=list(names), form='vec')


def rem(*names, **kw):
    return op('remove', kw.get('o', 0), names=list(names), form='vec')


def flag(n, v, o=0):
    return op('flag', o, n=n, v=v)


def action(n, v, o=0):
    return op('action', o, n=n, v=v)


def nargs(n, v, o=0):
    return op('nargs', o, n=n, v=v)


def defaults(n, *v, **kw):
    return op('defaults', kw.get('o', 0), n=n, v=list(v), form='vec')


def req(n, v=True, o=0):
    return op('required', o, n=n, v=v)


def parse(*toks, **kw):
    return op('parse', kw.get('o', 0), argv=['prog'] + list(toks))


def mode(k, v=True, o=0):
    return op('mode', o, k=k, v=v)


def obs(probe, o=0):
    return op('obs', o, probe=probe)


def valid(n, vid, dele, k='choice', o=0, **kw):
    v = dict({'k': k, 'vid': vid, 'del': dele}, **kw)
    if k == 'choice':
        v.setdefault('choices', ['v', 'w', '1'])
        v.setdefault('form', 'vec')
    return op('valid', o, n=n, v=v)


def dest(n, slot, type_='string', shape='one', custom=False, o=0):
    return op('dest', o, n=n, slot=slot, type=type_, shape=shape, custom=custom)


NICE = [mode('hex'), mode('vex')]


def prof(init, alpha, length, probe=PROBE, tail=(), nobj=1, deep=False, usage=True, each=False):
    return dict(each=each, nobj=nobj, init=list(init), alpha=list(alpha), len=length, probe=list(probe), tail=list(tail), deep=deep, usage=usage)


def names(length):
    """who owns which name"""
    out = []
    tail = [parse('-a', '--bb', 'v')]
    out.append(prof(NICE, [add('-a'), add('--aa', '-a'), add('--bb', '--aa', '-b'), add('p'), add('-a', '-a'), add('-b', '--zz', '-b'),
                           flag('-a', '--bb'), flag('--aa', '-b'), flag('p', '-c'), flag('-b', '-b'), flag('--none', '-c'),
                           rem('-a'), rem('--aa', '-b'), rem('p'), rem('-a', '--none'), rem('-b', '-b'), rem(), op('clear'), parse('v')],
                    length, tail=tail))
    # ill-formed names, in every position of the list
    bad = ['', '-', '--', 'x', '-ab', '--=', '---', '-=', '-', 'x y']
    for b in bad:
        out.append(prof(NICE, [add(b), add('-a', b), add(b, '-a'), add('-a', '-b', b, '--bb'), flag('-a', b), flag('-b', b), add('-a'), add('-b'), rem(b), rem('-a', b),
                               rem(b, '-a'), parse()], min(length, 4), probe=sorted(set(PROBE + bad)), tail=tail))
    # names that are prefixes of each other, order of the flags
    out.append(prof(NICE, [add('--a', '--aa', '-a'), add('--ab', '--'), add('--aa'), add('aa'), add('a'), add('-a', 'a'), flag('--a', '--ab'), flag('--aa', '--a'),
                           flag('-a', '-A'), rem('--a'), rem('--aa'), rem('aa', 'a'), rem('--ab', '--a')],
                    min(length, 4), probe=sorted(set(PROBE + ['--a', '--ab', 'aa', '-A'])), tail=[parse('-a', '--a', 'v', 'w')]))
    # required and the order, defined and removed again
    out.append(prof(NICE, [add('p'), add('q'), add('-a'), add('--bb'), req('q'), req('p'), req('q', False), req('--bb'), rem('p'), rem('q'), rem('-a'), flag('--bb', '-b'), parse('v', 'w')],
                    length, tail=[parse('v'), parse('v', 'w'), parse('v', 'w', '--bb', 'x')]))
    return out


def namelists(length):
    """every short list of names given to addArgument and removeArguments"""
    out = []
    words = ['-a', '--aa', 'p', '', '-', '--', '-ab', '--=']
    dirty = NICE + DIRTY[:2] + [op('text', k='version', v='1')]
    lists = [[]] + [[x] for x in words] + [[x, y] for x in words for y in words]
    long = [[x, y, z] for x in words[:5] for y in words[:5] for z in words[:5]] + [['-a', '--aa', '-b', x] for x in words] + [['p', 'p', 'p'], ['p', 'q', 'p', 'q']]
    for init in ([], [add('-a'), add('q')], [add('--aa', '-b'), add('p')]):
        for name in ('add', 'remove'):
            for some in (lists, long):
                out.append(prof(dirty + init, [op(name, names=l, form='vec') for l in some], 1, probe=PROBE + ['-ab', '--=']))
    # two lists in a row
    al = [op('add', names=l, form='vec') for l in (['-a'], ['-a', '--aa'], ['--aa', '-a', '-b'], ['p'], ['-b', '-a', '-b'], ['-c', 'p'], ['-', '-c'])]
    al += [op('remove', names=l, form='vec') for l in (['-a'], ['--aa', '-a'], ['-b', '-b'], ['p', '-a'], ['p', 'p'], ['-c', '-a'])]
    out.append(prof(dirty, al, length, probe=PROBE))
    return out


def roles(length):
    """help and version: who has the role, through redefinition, removal and parsing"""
    out = []
    base = NICE + [op('text', k='version', v='1.2')]
    tail = [parse('-h'), parse('--help'), parse('-a'), parse('--bb'), parse('x')]
    for role, other in (('HELP', 'VERSION'), ('VERSION', 'HELP')):
        out.append(prof(base + [add('-a'), add('--bb')],
                        [action('-a', role), action('--bb', role), action('-a', 'STORE_TRUE'), action('--bb', other), nargs('-a', 2), nargs('--bb', 0), defaults('-a', 'd'),
                         rem('-a'), rem('--bb'), add('-a'), add('--bb'), flag('-a', '-h'), flag('--bb', '--help'), flag('-a', '--help'), parse(), op('clear')], length, tail=tail))
    out.append(prof(base, [add('-h'), add('--help'), add('-h', '--help'), add('-h', '-x'), rem('-h'), rem('--help'), action('--help', 'HELP'), action('-h', 'HELP'),
                           action('-h', 'STORE_TRUE'), flag('-h', '--bb'), parse(), parse('-h'), parse('--help'), parse('q'), op('clear')], length, tail=tail[:2]))
    # exits
    out.append(prof([add('-a'), add('--bb'), op('text', k='version', v='1.2')],
                    [mode('hex'), mode('vex'), mode('hex', False), action('-a', 'HELP'), action('--bb', 'VERSION'), parse('-a'), parse('--bb'), parse('-h'), parse('--bb', '-h'), rem('-a')],
                    min(length, 4), usage=False))
    return out


ACTIONS = ['NONE', 'HELP', 'VERSION', 'STORE_TRUE', 'STORE_FALSE', 'APPEND', 'EXTEND', 'INFINITE']


def kinds(length):
    """every definition of one option / positional, to closure"""
    out = []
    for n in ('-a', 'p'):
        al = [action(n, a) for a in ACTIONS] + [nargs(n, k) for k in (0, 1, 2, 3, 43)]
        al += [defaults(n, *'defg'[:k]) for k in range(5)] + [req(n), req(n, False)]
        if n == '-a':
            tail = [parse(), parse('-a'), parse('-a', 'v'), parse('-a', 'v', 'w'), parse('-a', 'v', '-a', 'w'), parse('-av'), parse('-a', 'v', 'w', 'x', 'y')]
        else:
            tail = [parse(), parse('v'), parse('v', 'w'), parse('v', 'w', 'x', 'y'), parse('v', 'w', 'x')]
        out.append(prof(NICE + [add(n)], al, length, probe=[n, '-h'], tail=tail))
    return out


def commute(length):
    """definition calls of two arguments in every order"""
    out = []
    for k, d1, d2 in (('APPEND', ['d'], ['e', 'f']), ('EXTEND', ['d', 'e'], ['d', 'e', 'f', 'g']), ('INFINITE', ['d'], ['d', 'e', 'f']), ('STORE_TRUE', ['d'], []),
                      ('STORE_FALSE', ['d'], []), ('NONE', ['d'], ['d', 'e'])):
        al = [action('-a', k), nargs('-a', 2), defaults('-a', *d1), defaults('-a', *d2), req('-a'), flag('-a', '--aa'), dest('-a', 1, 'string', 'vec'),
              op('help', n='-a', v='h'), op('metavar', n='-a', v='M'), valid('-a', 7, True, 'choice', choices=['v', 'w', 'd', 'e', 'f', 'g', 'true'])]
        out.append(prof(NICE + [add('-a'), add('-b'), action('-b', 'STORE_TRUE')], al, length, probe=['-a', '--aa', '-b'], usage=False,
                        tail=[parse(), parse('-b', '-a', 'v', 'w'), parse('-a', 'v'), parse('-a')]))
    for k, d1, d2 in (('INFINITE', ['d'], ['d', 'e', 'f']), ('NONE', ['d'], ['d', 'e'])):
        al = [action('p', k), nargs('p', 2), defaults('p', *d1), defaults('p', *d2), req('p'), req('q'), dest('p', 1, 'string', 'vec'), action('q', k), nargs('q', 2), req('p', False)]
        out.append(prof(NICE + [add('p'), add('q')], al, length, probe=['p', 'q'], usage=False, tail=[parse(), parse('v', 'w'), parse('v', 'w', 'x'), parse('v', 'w', 'x', 'y')]))
    # what a definition shows in the usage text: required set and taken back, flags that sort differently
    al = [req(n, v) for n in ('-b', '--dd', 'p') for v in (True, False)] + [flag('-b', '--bb'), flag('--dd', '-c'), flag('--dd', '--aa'), rem('-b'), action('--dd', 'APPEND'), defaults('-b', 'x')]
    out.append(prof(NICE + [add('-b'), add('--dd'), add('-a'), add('--cc'), add('p')], al, length, probe=['-a', '-b', '--bb', '--dd', 'p'], usage=True, tail=[parse(), parse('-b', 'v', 'w')]))
    return out


def again(length):
    """every sequence of command lines on one object"""
    out = []
    defs = B().arg('-s --ss', 'SIMPLE', ['d']).arg('-b', 'BOOL').arg('-n', 'NUM').arg('-m --mm', 'MULTI', ['d', 'e']).arg('-e', 'MULTIINF')
    defs.arg('pos', 'POS').arg('rest', 'INFPOS', ['r'])
    pr = ['-s', '--ss', '-b', '-n', '-m', '-e', 'pos', 'rest', '-h', '--help']
    lines = [[], ['-s', 'v'], ['-b', '-m', 'v', '-m', 'w'], ['-n', 'v', 'w', 'x'], ['-n', 'v'], ['-z'], ['-e', 'v', 'w', '--', 'x', 'y'], ['--ss=5', '-bm7', 'p'], ['-h'], ['-bb']]
    out.append(prof(defs.ops, [parse(*l) for l in lines], length, probe=pr, deep=True, usage=False))
    # required, validators, destinations, strict and alternative mode between parses
    d2 = B()
    d2.arg('-s --ss', 'SIMPLE', required=True, valid={'k': 'choice', 'vid': 1, 'del': True, 'choices': ['v', 'w'], 'form': 'vec'})
    d2.arg('-i --ii', 'INF', ['1', '2'], valid={'k': 'upper', 'vid': 2, 'del': False}, dest=('string', 'vec'))
    d2.arg('-b', 'BOOL', dest=('bool', 'one')).arg('pos', 'POS', dest=('string', 'one'))
    lines = [['-s', 'v'], ['-s', 'bad'], ['-b'], ['-ss', 'w', 'x'], ['-s', 'w', '-i', 'x', 'y', 'bad'], ['x', '-b', '--ss=v'], ['-s', 'v', 'p', 'q']]
    al = [parse(*l) for l in lines] + [mode('alt'), mode('alt', False), mode('strict'), op('reslot', slot=1)]
    out.append(prof(d2.ops, al, length, probe=['-s', '--ss', '-i', '-b', 'pos', '-h'], deep=True, usage=False))
    # exceptions of the program's own, thrown by a validator or a custom destination
    d4 = B().arg('-a --aa', 'SIMPLE', ['d'], valid={'k': 'raise', 'vid': 1, 'del': True}, dest=('string', 'one')).arg('-m', 'MULTI', valid={'k': 'upper', 'vid': 2, 'del': True})
    d4.arg('p', 'POS').arg('q', 'POS', ['e'])
    boom = [dict(dest('p', 5, custom=True), boom=True), dict(dest('q', 6, shape='vec', custom=True), boom=True)]
    lines = [['-a', 'v', '-mw'], ['-a', 'boom', '-m', 'w', 'x'], ['-m', 'u', 'boom', 'x'], ['-m', 'boom', 'x', 'boom'], ['x', 'y'], ['-z', 'boom'], ['boom', '-a']]
    al = [parse(*l) for l in lines] + [rem('-a'), mode('alt'), defaults('q', 'boom'), op('reslot', slot=5)]
    out.append(prof(d4.ops + boom, al, length, probe=['-a', '--aa', '-m', 'p', 'q', '-h'], deep=True, usage=False))
    # definitions changed between parses
    d3 = B().arg('-a --aa', 'SIMPLE', ['d']).arg('p', 'POS')
    al = [parse('-a', 'v', 'w'), parse('v', 'w'), parse('-a'), nargs('-a', 2), action('-a', 'APPEND'), defaults('-a', 'e'), defaults('-a'), rem('p'), add('q'), req('-a'), nargs('p', 2)]
    out.append(prof(d3.ops, al, length, probe=['-a', '--aa', 'p', 'q', '-h', '--help'], deep=True, usage=False))
    return out


DIRTY = [mode('alt'), mode('strict'), mode('hex'), mode('vex')] + [op('text', k=k, v='x' + k) for k in ('version', 'binary', 'desc', 'epilog', 'usage')] + \
    [op('width', v=[1, 10, 3, 30])]


def clears(length):
    """clear() after every single setting and every pair, and what follows"""
    out = []
    after = [add('-a'), add('p'), parse('-a', 'v'), parse('-h'), parse(), op('get', n='-a')]
    opts = [add('-a', '--aa'), action('-a', 'HELP')], [add('-v', '-a'), action('-a', 'VERSION'), op('text', k='version', v='9')], [add('-a'), action('-a', 'APPEND'), defaults('-a', 'd')], \
        [add('p'), req('p')], [add('-a'), valid('-a', 3, True)], [add('p'), dest('p', 1)], []
    for d in opts:
        for s in DIRTY:
            out.append(prof(NICE + d + [s], [op('clear'), mode('hex'), parse('-a'), parse('v', 'w')] + after[:2], min(length, 3), tail=[mode('hex'), mode('vex')] + after))
    out.append(prof([], DIRTY + [op('clear'), op('destroy'), op('new'), add('-a'), add('p')], length, tail=[mode('hex'), mode('vex')] + after))
    out.append(prof(DIRTY[:-2], [parse('-h'), parse('v'), op('clear'), add('-a'), action('-a', 'HELP'), add('p'), mode('hex'), mode('hex', False), mode('strict', False)], length + 1,
                    tail=[mode('hex'), mode('vex')] + after))
    return out


def owners(length):
    """lifetimes of validators and arguments"""
    out = []
    tail = []
    al = [valid('-a', 1, True), valid('-a', 1, False), valid('-a', 2, False), valid('p', 2, False), valid('-a', 3, True), valid('p', 4, True), op('copy', n='-a'), op('copy', n='p'), dest('-a', 1), dest('p', 2, 'int', 'one'),
          rem('-a'), rem('-a', 'p'), rem('-a', '--none'), add('-a'), add('-a', '-c'), flag('-a', '--aa'), action('-a', 'HELP'), defaults('-a', '1', '2'), op('clear'), op('destroy'), op('new'), parse('v'),
          parse('-a', 'bad'), parse('-z')]
    out.append(prof(NICE + [add('-a', '--aa'), add('p')], al, length, probe=['-a', '--aa', 'p', '-c', '-h'], tail=tail, usage=False))
    # the same argument under several names
    al = [valid('-a', 1, True), valid('--aa', 1, True), valid('--aa', 2, True), valid('--aaa', 3, False), valid('--aa', 0, False, 'none'), rem('-a'), rem('--aa'), rem('--aaa'), rem('-a', '--aa', '--aaa'), rem('--aa', '--aa'),
          op('copy', n='--aa'), op('copy', n='-a'), parse('--aa', 'v'), parse('-a', 'x'), op('destroy')]
    out.append(prof(NICE + [add('-a', '--aa', '--aaa')], al, length, probe=['-a', '--aa', '--aaa', '-h'], usage=False))
    # dest() replaces the argument object: everything else must survive it
    al = [valid('-a', 1, True), dest('-a', 1, 'string', 'one'), dest('-a', 2, 'int', 'vec'), dest('-a', 3, 'string', 'vv', True), dest('-a', 4, 'double', 'one', True), op('copy', n='-a'), rem('-a'),
          valid('-a', 2, True, 'minmax', min='0', max='0.009'), parse('-a', '1'), parse(), op('destroy')]
    out.append(prof(NICE + [add('-a', '--aa')], al, length, probe=['-a', '--aa', '-h'], usage=False))
    return out


def apart(length):
    """calls on two objects"""
    out = []
    two = []
    for o in (0, 1):
        two += [mode('hex', True, o), mode('vex', True, o)]
    a0 = [add('-a', o=0), action('-a', 'HELP'), action('-a', 'APPEND'), parse('-a', 'v'), parse('-h'), op('clear'), mode('alt'), mode('strict'), op('destroy'), op('new'), rem('-a'), op('width', v=[1, 10, 3, 30])]
    a1 = [add('-a', o=1), action('-a', 'HELP', 1), parse('-a', 'w', o=1), parse('-h', o=1), op('text', 1, k='usage', v='u'), valid('-a', 1, True, o=1), op('destroy', 1), op('clear', 1)]
    out.append(prof(two, a0 + a1, length, nobj=2, probe=['-a', '-h', '--help'], tail=[parse('-a', 'v', o=1), parse('-a', 'v', o=0)]))
    # alternative and strict modes, validators, additional arguments on two like objects
    defs = []
    for o in (0, 1):
        defs += [add('-a', '--aa', o=o), add('-b', o=o), action('-b', 'STORE_TRUE', o), valid('-a', 1 + o, True, o=o)]
    al = []
    for o in (0, 1):
        al += [mode('alt', True, o), mode('strict', True, o), parse('-aa', 'v', o=o), parse('-b', 'x', o=o), parse('-a', 'bad', o=o), defaults('-a', 'w', o=o), rem('-b', o=o), op('destroy', o)]
    out.append(prof(two + defs, al, length, nobj=2, probe=['-a', '--aa', '-b', '-h'], tail=[parse('-aa', 'w', o=0), parse('-aa', 'w', o=1)], usage=False))
    # destinations and numbers
    defs = []
    for o in (0, 1):
        defs += [add('-a', o=o), dest('-a', 1 + o, 'int', 'one', o=o), add('p', o=o), action('p', 'INFINITE', o), dest('p', 3 + o, 'string', 'vec', o=o)]
    al = []
    for o in (0, 1):
        al += [parse('-a', str(o + 5), 'x', o=o), parse('v', 'w', o=o), parse('-a', o=o), op('clear', o), defaults('p', 'd', o=o), op('text', o, k='binary', v='bin%d' % o)]
    out.append(prof(two + defs, al, length, nobj=2, probe=['-a', 'p', '-h'], usage=True))
    # every setting on and off, on either object
    al = [mode(k, v, o) for k in ('hex', 'vex', 'alt', 'strict') for v in (True, False) for o in (0, 1)]
    al += [op('text', o, k=k, v='%s of %d' % (k, o)) for k in ('version', 'binary', 'desc', 'epilog') for o in (0, 1)]
    al += [op('width', 0, v=[1, 10, 3, 30]), op('width', 1, v=[4, 12, 1, 40])]
    defs = [x for o in (0, 1) for x in (add('-a', '--aa', o=o), add('-v', o=o), action('-v', 'VERSION', o=o))]
    out.append(prof(two + defs, al, max(2, length - 2), nobj=2, probe=['-a', '--aa', '-h'], tail=[parse('-aa', 'w', o=0), parse('-aa', 'w', o=1), parse('-v', o=1), parse('-v', o=0), parse('-h', o=0), parse('-h', o=1)]))
    # like definitions with other contents: built-in validators, texts, defaults
    vs = (dict(k='choice', choices=['a', 'b']), dict(k='choice', choices=['c', 'd'])), (dict(k='minmax', min='0', max='5'), dict(k='minmax', min='6', max='9')), \
        (dict(k='number'), dict(k='choice', choices=['x'])), (dict(k='path', mode='DIR'), dict(k='path', mode='FILE')), (dict(k='upper'), dict(k='prefix')), \
        (dict(k='choice', choices=[]), dict(k='choice', choices=['a', 'b', 'c', 'd']))
    for v in vs:
        defs = [x for o in (0, 1) for x in (add('-a', '--aa', o=o), add('p', o=o), op('valid', o, n='-a', v=dict(dict({'vid': 1 + o, 'del': True}, **({'form': 'vec'} if v[o]['k'] == 'choice' else {})), **v[o])))]
        vals = {'choice': ['a', 'c', 'x'], 'minmax': ['3', '7', 'x'], 'number': ['3', 'x', ''], 'path': ['fs_dir', 'fs_file', 'no'], 'upper': ['a', 'bad', 'x']}[v[0]['k']]
        al = [parse('-a', x, o=o) for x in vals for o in (0, 1)] + [parse('-h', o=0), op('clear', 0), op('destroy', 1)]
        out.append(prof(two + defs, al, min(3, length - 1), nobj=2, probe=['-a', '--aa', 'p', '-h'], deep=True))
    # the same name means different things
    defs = [add('-a', o=0), add('-a', '--aa', o=1)]
    al = [action('-a', 'APPEND', 0), action('-a', 'STORE_TRUE', 1), nargs('-a', 2, 0), nargs('-a', 3, 1), defaults('-a', 'd', 'e', o=0), defaults('-a', 'f', o=1), req('-a', True, 0), req('-a', True, 1),
          op('help', 0, n='-a', v='first'), op('help', 1, n='-a', v='second'), op('metavar', 0, n='-a', v='M'), op('metavar', 1, n='-a', v='N'), rem('-a', o=0), rem('-a', o=1), flag('-a', '-b', 0), flag('-a', '--bb', 1)]
    out.append(prof(two + defs, al, max(2, length - 1), nobj=2, probe=['-a', '--aa', '-b', '--bb', '-h'], tail=[parse('-a', 'v', 'w', o=0), parse('-a', o=1), parse(o=0), parse(o=1)]))
    return out


def toggles(length):
    """alternative and strict mode switched between parses and definitions"""
    b = B().arg('-a --aa', 'SIMPLE').arg('--a', 'BOOL').arg('-b', 'BOOL').arg('pos', 'POS')
    al = [mode('alt'), mode('alt', False), parse('-aa', 'v'), parse('-aa=v'), parse('-a', 'v'), parse('-ba', 'v'), parse('-bb', 'v'), add('--bb'), add('--ba'), rem('--aa'), rem('--a'), mode('strict')]
    return [prof(b.ops, al, length, probe=['-a', '--aa', '--a', '-b', '--bb', '--ba', 'pos'], tail=[parse('-aa', 'v'), parse('-a', 'w'), parse('-b', '-ba')], usage=False)]


HELP0 = [add('--usage'), action('--usage', 'HELP')]     # nothing is left to be defined by the parse itself


def built_options(length):
    """command lines on options that were defined in every possible way"""
    tail = [parse(*l) for l in (['-a', 'x', 'y', '-b', 'z'], ['-ba', 'x', 'y'], ['-a=x', '-a', 'y', 'z'], ['x', '--aa', 'y', 'w', '--', '-b'], ['-ab'], ['--bb', 'x', '-c', 'y', '-c', 'u', 'w'], [])]
    probe = ['-a', '--aa', '-b', '--bb', '-c', 'p', '-h', '--usage']
    al = [action('-a', x) for x in ('INFINITE', 'APPEND', 'EXTEND', 'STORE_FALSE', 'NONE')] + [nargs('-a', 2), nargs('-a', 43), defaults('-a', 'd', 'e'), defaults('-a', 'f'), defaults('-a'), req('-a')]
    al += [flag('-a', '-c'), flag('-b', '-c'), action('-b', 'STORE_TRUE'), nargs('-b', 0), rem('-b'), rem('-a'), rem('--aa'), add('-b'), add('--bb', '-a'), add('-c', '-b'), dest('-a', 1, 'string', 'vec')]
    al += [mode('alt'), parse('-a', 'x', 'y'), op('copy', n='-a'), action('-a', 'HELP'), op('clear')]
    out = []
    for first in (NICE + HELP0, NICE):
        for some in ([], [nargs('-b', 0), action('-a', 'EXTEND')], [action('-b', 'APPEND'), nargs('-b', 2), nargs('-a', 2)]):
            out.append(prof(first + [add('-a', '--aa'), add('-b'), add('p')] + some, al, length, probe=probe, tail=tail, each=True, usage=False))
    return out


def built_positionals(length):
    """command lines on positional arguments that were defined in every possible way"""
    tail = [parse(*l) for l in ([], ['x'], ['x', 'y', 'z'], ['x', '-b', 'y', '--', 'z', '-b', 'u'], ['x', 'y', 'z', 'u', 'v', '-b', 'w'], ['-b', '--', 'x', 'y'])]
    probe = ['p', 'q', 'r', 's', '-b', '--bb', '-h', '--usage']
    al = [req(n) for n in 'pqr'] + [req('q', False), req('p', False), req('-b'), nargs('q', 2), nargs('p', 2), action('q', 'INFINITE'), action('r', 'INFINITE'), action('q', 'NONE')]
    al += [rem('p'), rem('q'), rem('r'), rem('-b'), add('p'), add('s'), add('q'), defaults('q', 'd'), defaults('q', 'd', 'e'), defaults('p', 'c'), flag('-b', '--bb'), nargs('-b', 0), mode('strict')]
    al += [parse('x', 'y'), dest('p', 1), dest('q', 2, 'string', 'vec'), op('copy', n='q'), op('clear')]
    out = []
    for first in (NICE + HELP0, NICE):
        for some in ([], [req('r'), action('r', 'INFINITE')], [nargs('p', 2), nargs('r', 3)]):
            out.append(prof(first + [add('p'), add('-b'), action('-b', 'STORE_TRUE'), add('q'), add('r')] + some, al, length, probe=probe, tail=tail, each=True, usage=False))
    return out


LONG = 'a longer help text that goes past the width of its column, and then on and on until it wraps'


def usages(length):
    """what the usage text shows after any definition call, in several widths"""
    out = []
    text = lambda k, v: op('text', k=k, v=v)
    width = lambda *v: op('width', v=list(v))
    help_ = lambda n, v: op('help', n=n, v=v)
    meta = lambda n, v: op('metavar', n=n, v=v)
    parse1 = op('parse', argv=['/bin/some/prog'])
    # every kind of argument, defined step by step
    for n in ('-a', '--long-name', 'p'):
        al = [action(n, a) for a in ('NONE', 'STORE_TRUE', 'STORE_FALSE', 'APPEND', 'EXTEND', 'INFINITE', 'HELP', 'VERSION')] + [nargs(n, k) for k in (0, 1, 2, 3, 43)]
        al += [defaults(n, *['d' * 30, 'e', '', 'f g'][:k]) for k in range(5)] + [req(n), help_(n, LONG), help_(n, 'x\n  y\n'), meta(n, 'M'), meta(n, 'M' * 25)]
        if n != 'p':
            al += [flag(n, '--aa'), flag(n, '-b'), flag(n, '--a-long-flag-name')]
        out.append(prof(NICE + [add(n)], al, length, probe=[n], usage=True))
    # texts and widths
    base = NICE + [add('-a', '--aa'), help_('-a', LONG), add('-s'), action('-s', 'STORE_TRUE'), add('--a-very-long-flag-name'), nargs('--a-very-long-flag-name', 3),
                   add('pos'), help_('pos', 'one ' * 20), add('others'), action('others', 'INFINITE'), defaults('others', 'x', 'y')]
    al = [text('desc', LONG + '\n\n' + LONG), text('desc', 'x' * 120), text('epilog', ' two  spaces  '), text('epilog', 'e\n'), text('binary', '/a/b/prog'), text('binary', 'a-long-program-name' * 4),
          text('usage', 'custom\ntext'), text('usage', ''), width(0, 0, 0, 0), width(2, 20, 2, 10), width(4, 8, 1, 30), width(1, 60, 1, 60), width(2, 5, 0, 1), req('-a'), req('others'), parse1, rem('pos'),
          rem('--aa'), op('clear')]
    out.append(prof(base, al, length, probe=['-a'], usage=True))
    # many arguments: the synopsis wraps, in any order of definition
    al = [add('-%s' % c) for c in 'cB'] + [add('--opt-%s' % c * 3) for c in 'zA'] + [add('first'), add('second'), req('second'), req('-c'), req('--opt-z--opt-z--opt-z'), nargs('first', 2), action('second', 'INFINITE'),
                                                                              nargs('second', 2), width(2, 20, 2, 0), width(1, 10, 1, 20), parse1]
    out.append(prof(NICE + [text('binary', 'prog'), add('--kk', '-k'), nargs('--kk', 3)], al, length, probe=['-c', 'first'], usage=True))
    return out

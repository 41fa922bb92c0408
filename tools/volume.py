"""Scenarios beyond everyday sizes: long command lines, many occurrences, many
definitions, large nargs, long texts, many parses, calls made by callbacks.
What must happen is decided by the specification, as for all scenarios."""
import random
import string

SIZES = [60, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]
LENGTHS = [31, 32, 33, 63, 64, 65, 79, 80, 81, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097]
NARGS = [4, 7, 8, 10, 16, 17, 32, 33, 42, 44, 64, 65, 100, 128, 129, 255, 256, 257, 300]
LETTERS = string.ascii_letters + string.digits


class Sc(object):
    def __init__(self, r, nobj=1):
        self.r = r
        self.nobj = nobj
        self.ops = []
        self.names = ['-h', '--help']
        for o in range(nobj):
            self.mode(o, 'hex')
            self.mode(o, 'vex')

    def op(self, name, o, **kw):
        d = dict(op=name, o=o)
        d.update(kw)
        self.ops.append(d)

    def mode(self, o, k, v=True):
        self.op('mode', o, k=k, v=v)

    def add(self, names, o=0, action=None, nargs=None, **kw):
        self.op('add', o, names=names, form='vec')
        self.names += [n for n in names if n not in self.names]
        n = names[0]
        if nargs is not None:
            self.op('nargs', o, n=n, v=nargs)
        if action is not None:
            self.op('action', o, n=n, v=action)
        if 'defaults' in kw:
            self.op('defaults', o, n=n, v=kw['defaults'], form='vec')
        if kw.get('required'):
            self.op('required', o, n=n, v=True)
        if 'valid' in kw:
            self.op('valid', o, n=n, v=kw['valid'])
        if 'dest' in kw:
            slot, type_, shape = kw['dest']
            self.op('dest', o, n=n, slot=slot, type=type_, shape=shape, custom=False)
        return n

    def parse(self, toks, o=0, probe=None):
        self.op('parse', o, argv=['prog'] + toks)
        self.obs(o, probe)

    def obs(self, o=0, probe=None):
        names = list(probe if probe is not None else self.names)
        self.op('obs', o, probe=sorted(names, key=lambda s: s.encode('latin-1', 'replace')))

    def pick(self, l):
        return l[self.r.randrange(len(l))]

    def word(self, i):
        return self.pick(['v%d', 'w%d', '%d', 'x=%d', '-%d.5']) % i

    def done(self, sid):
        return dict(id=sid, nobj=self.nobj, ops=self.ops)


def extras(s):
    n = s.pick(SIZES)
    s.add(['-v'], action='STORE_TRUE')
    if s.r.random() < 0.3:
        s.mode(0, 'strict')
        s.add(['p1'])
    s.parse((['-v'] if s.r.random() < 0.5 else []) + [s.word(i).lstrip('-') for i in range(n)] + (['--', '-v'] if s.r.random() < 0.5 else []))


def lists(s):
    n = s.pick(SIZES)
    pos = s.r.random() < 0.5
    k = s.pick([1, 1, 2, 3, 7])
    vals = [s.word(i) for i in range(n - n % k)]
    dest = (1, s.pick(['string', 'int', 'double']), 'vec' if k == 1 or s.r.random() < 0.5 else 'vv')
    s.add(['-s'])
    if pos:
        vals = [v for v in vals if v[0] != '-']
        vals = vals[:len(vals) - len(vals) % k]
        s.add(['rest'], nargs=k, action='INFINITE', dest=dest, defaults=vals[:k * 3])
        s.parse(['-s', 'one'] + vals + ['-s', 'two'])
        s.parse(['--'] + vals)
    else:
        s.add(['-l', '--list'], nargs=k, action=s.pick(['EXTEND', 'INFINITE'] if k == 1 else ['EXTEND']), dest=dest, defaults=vals[:k * 2])
        s.parse(['-l'] + vals + ['-s', 'two'])
        s.parse(['-l'] + vals[:k] + ['-s', 'x', '--list'] + vals[k:] + ['--', 'z'])


def runs(s):
    """more values than a byte counts, for every kind that takes a run"""
    n = s.pick([256, 257, 258, 260, 270, 300])
    s.add(['-i', '--inf'], action='INFINITE', defaults=['d'])
    s.add(['-e'], action='EXTEND')
    s.add(['-g'], nargs=2, action='EXTEND')
    s.add(['-v'], action='STORE_TRUE')
    s.add(['-n'], nargs=n - n % 2)
    pos = s.pick([None, 1, 2, 3])
    if pos:
        s.add(['rest'], nargs=pos, action='INFINITE')
    vals = ['v%d' % i for i in range(n - n % 6)] if pos else ['v%d' % i for i in range(n)]
    even = vals + (['w'] if len(vals) % 2 else [])
    opts = [['-i'] + vals + ['-v'], ['--inf'] + vals + ['--', 'a', 'b', 'c'], ['-e'] + vals + ['-v'], ['-e', 'x', '-e'] + vals + ['-v'], ['-g'] + even + ['-v'],
            ['-g', 'x', 'y', '-g'] + even + ['--'], ['-n'] + ['v%d' % i for i in range(n - n % 2)] + ['-v']]
    free = [vals + ['-v'], ['--'] + vals, vals + ['-v', '--'] + vals[:30]]
    for l in s.r.sample(opts, 3) + s.r.sample(free, 1):
        s.parse(l)


def occurrences(s):
    n = s.pick(SIZES)
    s.add(['-v', '--verbose'], action='STORE_TRUE')
    s.add(['-q'], action='STORE_FALSE')
    s.add(['-m', '--multi'], action='APPEND', dest=(1, 'string', 'vec'))
    s.add(['-o', '--one'])
    s.add(['-g'], nargs=2, action='APPEND')
    w = s.r.randrange(5)
    if w == 0:
        toks = ['-' + 'v' * n]
    elif w == 1:
        toks = ['-' + ''.join(s.pick('vq') for _ in range(n)) + s.pick(['', 'oX', 'mX', 'm=X'])]
    elif w == 2:
        toks = []
        for i in range(n // 2):
            toks += s.pick([['-m', s.word(i)], ['-m' + s.word(i)], ['--multi=' + s.word(i)], ['-vm' + s.word(i)], ['-v']])
    elif w == 3:
        toks = []
        for i in range(n // 3):
            toks += s.pick([['-o', s.word(i)], ['-o' + s.word(i)], ['--one=' + s.word(i)], ['--verbose'], ['-vvo', s.word(i)]])
    else:
        toks = []
        for i in range(n // 3):
            toks += ['-g', s.word(i), s.word(i + 1)] + (['-v'] if s.r.random() < 0.3 else [])
    s.parse(toks)


def nargs(s):
    n = s.pick(NARGS)
    pos = s.r.random() < 0.4
    act = s.pick([None, 'INFINITE'] if pos else [None, None, 'APPEND', 'EXTEND'])
    name = s.add(['many'] if pos else ['-n', '--many'], nargs=n, action=act)
    s.add(['-v'], action='STORE_TRUE')
    vals = [s.word(i) if not pos else 'v%d' % i for i in range(n)]
    if s.r.random() < 0.4:
        s.op('defaults', 0, n=name, v=['d%d' % i for i in range(n)], form='vec')
    if s.r.random() < 0.3:
        s.op('defaults', 0, n=name, v=['d%d' % i for i in range(n - 1)], form='vec')
    lead = [] if pos else ['-n']
    s.parse(lead + vals + ['-v'])
    s.parse(lead + vals[:-1])
    s.parse(lead + vals + (lead + vals if act else []) + ['tail'])
    if n < 60:
        s.op('usage', 0)


def huge(s):
    # more values than any command line has (see HUGE_COUNT in the driver)
    pos = s.r.random() < 0.4
    name = s.add(['many'] if pos else ['-n', '--many'], required=pos and s.r.random() < 0.5)
    s.op('metavar', 0, n=name, v='MANY')
    act = s.pick([None, 'INFINITE'] if pos else [None, None, 'APPEND', 'EXTEND'])
    calls = [dict(op='nargs', o=0, n=name, v=2147483640 + s.r.randrange(8))]
    if act:
        calls.insert(s.r.randrange(2), dict(op='action', o=0, n=name, v=act))
    if s.r.random() < 0.3:
        calls.insert(s.r.randrange(len(calls) + 1), dict(op='defaults', o=0, n=name, v=s.pick([['d'], ['d', 'e'], []]), form='vec'))
    s.ops += calls
    s.add(['-v'], action='STORE_TRUE')
    s.add(['-l'], action='INFINITE')
    s.obs()
    lead = [] if pos else ['-n']
    for _ in range(3):
        s.parse(s.pick([[], ['-v'], ['-l', 'w']]) + lead + s.pick([[], ['a'], ['a', 'b'], ['-v'], ['--'], ['--', 'a', 'b'], ['a', '--', 'b'], ['=', 'a'], ['-n', 'a']]))
    s.op('nargs', 0, n=name, v=2)
    s.parse(lead + ['a', 'b'])
    s.op('usage', 0)


def definitions(s):
    n = s.r.randint(20, 60)
    letters = list(LETTERS)
    s.r.shuffle(letters)
    made = []
    for i, c in enumerate(letters[:n]):
        if c == 'h':
            continue
        names = s.pick([['-' + c], ['-' + c, '--opt' + c], ['--opt' + c, '-' + c, '--other-' + c * 3]])
        k = s.r.randrange(4)
        made.append((s.add(names, action=[None, 'STORE_TRUE', 'APPEND', None][k], nargs=2 if k == 3 else None,
                           required=s.r.random() < 0.1, **({'defaults': ['d']} if k in (0, 2) and s.r.random() < 0.3 else {})), k))
    for i in range(s.r.randint(0, 6)):
        s.add(['pos%d' % i], required=s.r.random() < 0.3)
    s.op('usage', 0)
    toks = []
    for f, k in s.r.sample(made, min(25, len(made))):
        toks += [f] + ['v'] * [1, 0, 1, 2][k]
    s.parse(toks + ['a', 'b'])
    full = [t for f, k in made for t in [f] + ['v'] * [1, 0, 1, 2][k]]
    s.parse(full + ['p'] * 8)
    gone = s.r.sample(made, len(made) // 2)
    s.op('remove', 0, names=[f for f, _ in gone], form='vec')
    s.obs()
    s.parse([t for f, k in made if (f, k) not in gone for t in [f] + ['v'] * [1, 0, 1, 2][k]])


def positionals(s):
    n = s.pick([10, 17, 33, 40])
    for i in range(n):
        s.add(['p%d' % i], required=s.r.random() < 0.4, **({'defaults': ['d%d' % i]} if s.r.random() < 0.3 else {}))
    if s.r.random() < 0.4:
        s.mode(0, 'strict')
    s.op('usage', 0)
    for k in s.r.sample([n - 1, n, n + 1, n + 30, n // 2, 0], 3):
        s.parse(['v%d' % i for i in range(k)])


def flags(s):
    n = s.pick([9, 17, 33, 40])
    first = s.add(['-a'], action=s.pick([None, 'APPEND', 'STORE_TRUE']))
    s.add(['-z'])
    names = ['-a']
    for i in range(n):
        f = s.pick(['--f%02d', '--%02d', '--long-flag-%d']) % i if s.r.random() < 0.7 else '-' + LETTERS[(i * 7 + 1) % 60]
        if f in names or f in ('-z', '-h'):
            continue
        s.op('flag', 0, n=s.pick(names), v=f)
        names.append(f)
        s.names.append(f)
    s.op('usage', 0)
    t = []
    for f in s.r.sample(names, min(12, len(names))):
        t += [f] + (['v'] if s.ops[2]['op'] == 'add' and not any(o['op'] == 'action' and o['v'] == 'STORE_TRUE' for o in s.ops) else [])
    s.parse(t)
    s.op('remove', 0, names=s.r.sample(names, len(names) // 2), form='vec')
    s.obs()
    s.op('usage', 0)


def long_texts(s):
    n = s.pick(LENGTHS)
    # (the number views of a long number take TLC long)
    big = s.pick(['L', 'ab', 'x='] + (['9', '-'] if n < 700 else [])) * n
    big = big[:n]
    if s.r.random() < 0.3:
        big = big[:n // 2] + s.pick([' ', '=', '\n', '\u00e9', '"']) + big[n // 2:]
    name = 'n' * n
    s.add(['-o', '--one', '--' + name], dest=(1, s.pick(['string', 'cstr', 'char16']), 'one'))
    s.add(['-m'], action='APPEND', dest=(2, 'string', 'vec'))
    s.add(['-c'], valid=dict(k='choice', vid=1, choices=[big, 'b'], form='vec', **{'del': True}))
    s.add(['pos' + name], required=s.r.random() < 0.5)
    w = s.r.randrange(8)
    v = big if big[0] != '-' or s.r.random() < 0.5 else 'v' + big
    if w == 0:
        s.parse(['-o', v, '-m', v, 'p', v])
    elif w == 1:
        s.parse(['-o' + v, '--one=' + v, '-m=' + v, v])
    elif w == 2:
        s.parse(['--' + name + '=' + v, '--', v, v])
    elif w == 3:
        s.parse(['p', '--' + name + 'x', 'v'])
    elif w == 4:
        s.parse(['p', '--' + name])
    elif w == 5:
        s.parse(['p', '-c', s.pick([v, big])])
    elif w == 6:
        s.mode(0, 'alt')
        s.parse(['p', '-' + name, v, '-' + name + '=' + v])
    else:
        s.mode(0, 'strict')
        s.parse(['p', v, v])
    if n < 600:
        s.op('help', 0, n='-o', v=s.pick(['w ', 'word ', big + ' ']) * (600 // (n + 1) + 1))
        s.op('metavar', 0, n='-m', v=big)
        s.op('text', 0, k='desc', v='d ' * n)
        s.op('text', 0, k='epilog', v=big)
        s.op('text', 0, k='version', v=big)
        s.op('usage', 0)
    else:
        s.op('text', 0, k=s.pick(['usage', 'version']), v=big)
        s.op('usage', 0)
        s.obs()


def parses(s):
    n = s.pick([9, 10, 17, 20])
    s.add(['-v'], action='STORE_TRUE')
    s.add(['-o'], defaults=['d'], dest=(1, 'string', 'one'))
    s.add(['-m'], action='APPEND', defaults=['1', '2'], dest=(2, 'int', 'vec'))
    s.add(['-r'], action=s.pick(['STORE_TRUE', None]), required=s.r.random() < 0.3)
    s.add(['p'], nargs=2, action=s.pick([None, 'INFINITE']), defaults=['a', 'b'])
    s.add(['--version'], action='VERSION')
    pool = [['-v'], ['-o', 'x'], ['-m', '5'], ['-m7'], ['-r'], ['-r', 'x'], ['u', 'w'], ['u'], ['--bad'], ['-h'], ['--version'], ['--'], ['-vv'], ['a', 'b', 'c', 'd']]
    for i in range(n):
        s.parse([t for _ in range(s.r.randint(0, 4)) for t in s.pick(pool)])
        if s.r.random() < 0.2:
            s.mode(0, s.pick(['alt', 'strict']), s.r.random() < 0.5)


def big_lists(s):
    n = s.pick([21, 33, 65, 70, 129])
    words = ['c%d' % i for i in range(n)]
    s.r.shuffle(words)
    s.add(['-c'], valid=dict(k='choice', vid=1, choices=words, form=s.pick(['vec', 'plus', 'sized']), **{'del': True}))
    s.add(['-m'], action='EXTEND')
    s.op('defaults', 0, n='-m', v=words, form=s.pick(['vec', 'plus', 'sized', 'init']))
    flags_ = ['--k%d' % i for i in range(n)]
    s.op('add', 0, names=flags_, form=s.pick(['vec', 'plus', 'sized', 'init']))
    s.names += flags_
    s.obs()
    s.parse(['-c', s.pick(words[-3:]), s.pick(flags_), 'v'])
    s.parse(['-c', 'c%d' % n])
    s.op('remove', 0, names=flags_[:n - 1], form='vec')
    s.obs()


def redefinitions(s):
    n = s.pick([9, 17, 20])
    pos = s.r.random() < 0.3
    name = s.add(['arg'] if pos else ['-a', '--arg'])
    s.add(['-b'], action='STORE_TRUE')
    vid = 0
    for i in range(n):
        w = s.r.randrange(7)
        if w == 0:
            s.op('action', 0, n=name, v=s.pick(['NONE', 'INFINITE', 'APPEND', 'EXTEND', 'STORE_TRUE', 'STORE_FALSE', 'HELP', 'VERSION']))
        elif w == 1:
            s.op('nargs', 0, n=name, v=s.pick([0, 1, 2, 3, 43]))
        elif w == 2:
            s.op('defaults', 0, n=name, v=['d%d' % j for j in range(s.pick([0, 1, 1, 2, 2, 3, 4]))], form='vec')
        elif w == 3:
            vid += 1
            s.op('valid', 0, n=name, v=dict(k=s.pick(['accept', 'upper', 'reverse']), vid=vid, **{'del': s.r.random() < 0.6}))
        elif w == 4:
            k = s.r.randrange(6)
            s.op('dest', 0, n=name, slot=k + 1, type=['string', 'int', 'string', 'double', 'string', 'bool'][k], shape=['one', 'one', 'vec', 'vec', 'vv', 'one'][k], custom=False)
        elif w == 5:
            s.op('required', 0, n=name, v=s.r.random() < 0.5)
        else:
            s.parse((['-b'] if s.r.random() < 0.5 else []) + s.pick([[], [name, 'x'], [name, 'x', 'y'], ['x', 'y']]))
    s.obs()
    s.parse(s.pick([[name], [name, 'x'], [name, 'x', 'y'], ['x', 'y'], []]))


def numbers(s):
    n = s.pick([15, 16, 17, 18, 19, 20, 21, 30, 40, 63, 64, 65, 100, 128, 255, 300, 306, 310, 400])
    d = ''.join(s.pick('0123456789') for _ in range(n))
    forms = [d, '-' + d, '0.' + d, '0' * n + '7', '0' * n + '.5', '.' + '0' * n + '5', d + '.' + d, d + 'e-' + str(n), '1' + '0' * n, '1' + '0' * n + 'e-%d' % n,
             '0.' + '0' * n + '1e%d' % n, '%se%d' % (d[0] + '.' + d[1:], s.r.randint(-300, 300)), ' ' * n + '4', d + 'x' * n, '1e' + '0' * n + '2', '1' * 3 + 'e' + '9' * n,
             '1e-' + '9' * n, '0e' + '9' * n]
    s.add(['-n'], dest=(1, 'double', 'one'))
    s.add(['-l'], action='EXTEND', dest=(2, 'double', 'vec'))
    s.add(['-g'], nargs=2, action='APPEND')
    s.add(['p'], defaults=[s.pick(forms)])
    s.add(['-w'], valid=dict(k=s.pick(['number', 'minmax']), vid=1, min='-1e10', max='1e20', **{'del': True}))
    s.parse(['-n', s.pick(forms), '-l', s.pick(forms), s.pick(forms), '-g', s.pick(forms), s.pick(forms)])
    s.parse(['-w', s.pick(forms), s.pick(forms)])


def nested(s):
    """validators and custom destinations that use other parsers"""
    def inner(o):
        ops = []
        for _ in range(s.r.randint(1, 3)):
            w = s.r.randrange(6)
            if w < 3:
                ops.append(dict(op='parse', o=o, argv=['in'] + s.pick([['-x', 'iv', '-m', 'a', '-mb'], ['-x'], ['--list', 'q', 'r', '-s'], ['u', 'w', '--', '-x'], ['-h'],
                                                                      ['--bad'], ['-sm', '1', '-m', '2'], [], ['-x=', '--list'], ['bad']])))
            elif w == 3:
                ops.append(dict(op='mode', o=o, k=s.pick(['alt', 'strict']), v=s.r.random() < 0.6))
            elif w == 4:
                ops.append(dict(op='action', o=o, n='--list', v=s.pick(['INFINITE', 'EXTEND', 'APPEND'])))
            else:
                ops.append(dict(op=s.pick(['help', 'metavar']), o=o, n='-x', v='inside'))
        return ops
    for o in range(s.nobj):
        s.add(['-x', '--xx'], o=o, dest=(o + 1, 'string', 'one'))
        s.add(['-m'], o=o, action='APPEND', defaults=['d%d' % o])
        s.add(['--list', '-l'], o=o, action='INFINITE')
        s.add(['-s'], o=o, action='STORE_TRUE')
        s.add(['p'], o=o, nargs=2)
    # calls go from an object to later ones only
    vid = 0
    for o in range(s.nobj - 1):
        for n in s.r.sample(['-x', '-m', '--list', 'p'], s.r.randint(1, 3)):
            vid += 1
            s.op('valid', o, n=n, v=dict(k='nest', vid=vid, nest=inner(s.r.randint(o + 1, s.nobj - 1)), **{'del': True}))
        if s.r.random() < 0.6:
            s.op('dest', o, n='-m', slot=4 + o, type='string', shape='vec', custom=True, nest=inner(s.r.randint(o + 1, s.nobj - 1)))
    last = s.nobj - 1
    s.op('valid', last, n='-m', v=dict(k=s.pick(['upper', 'notbad', 'accept']), vid=vid + 1, **{'del': True}))
    for _ in range(4):
        o = s.pick([0, 0, 0, s.nobj - 1])
        s.op('parse', o, argv=['prog'] + [t for c in s.r.sample([['-x', 'v1'], ['-x', 'bad'], ['-m', 'm1', '-mm2'], ['--list', 'l1', 'l2'], ['-s'], ['--', 'p1', 'p2'], ['-m', 'bad']],
                                                              s.r.randint(2, 5)) for t in ([] if c[0] == '--' else c)] + s.pick([[], ['--', 'p1', 'p2'], ['--', 'p1', 'p2', 'p3']]))
        for k in range(s.nobj):
            s.obs(k)
    for k in range(s.nobj):
        s.op('usage', k)


def raising(s):
    """validators and custom destinations that throw an exception of their own;
    afterwards everything goes on as if the call had not been made"""
    kinds = [None, 'APPEND', 'INFINITE', 'EXTEND']
    s.add(['-b'], action='STORE_TRUE')
    vid, bound = 0, []
    for i, n in enumerate(['-k', '-l', 'p']):
        k = s.pick(kinds[:1] + kinds[2:3] if n == 'p' else kinds)
        s.add([n], action=k, nargs=s.pick([None, None, 2]), defaults=s.pick([[], ['d1', 'd2'], ['boom']]))
        if s.r.random() < 0.7:
            vid += 1
            s.op('valid', 0, n=n, v=dict(k=s.pick(['raise', 'raise', 'raise', 'upper', 'reverse']), vid=vid, **{'del': s.r.random() < 0.7}))
        if s.r.random() < 0.7:
            custom = s.r.random() < 0.7
            bound.append(i + 1)
            s.op('dest', 0, n=n, slot=i + 1, type='string', shape=s.pick(['one', 'vec', 'vv'] if k is None else ['vec', 'vv']), custom=custom, **({'boom': True} if custom and s.r.random() < 0.7 else {}))
    for _ in range(6):
        line = [t for c in s.r.sample([['-k', 'a', 'b'], ['-k', 'boom', 'x'], ['-k', 'x', 'boom'], ['-l', 'u', 'v'], ['-l', 'boom', 'boom'], ['-b'], ['-l=boom'], ['-k=w']], s.r.randint(1, 4)) for t in c]
        s.parse(line + s.pick([[], ['--', 'q'], ['--', 'boom', 'q'], ['--', 'q', 'boom'], ['--', 'q', 'r']]))
        w = s.r.randrange(8)
        if w == 0 and bound:
            s.op('reslot', 0, slot=s.pick(bound))
        elif w == 1:
            s.op('copy', 0, n=s.pick(['-k', '-l', 'p']))
        elif w == 2:
            vid += 1
            s.op('valid', 0, n=s.pick(['-k', '-l', 'p']), v=dict(k='raise', vid=vid, **{'del': True}))
        elif w == 3:
            s.op('usage', 0)
        elif w == 4:
            s.op('remove', 0, names=[s.pick(['-k', '-l', 'p'])], form='vec')
            s.obs()


def many_objects(s):
    for o in range(s.nobj):
        s.add(['-a', '--aa'], o=o, action=[None, 'APPEND', 'STORE_TRUE', 'INFINITE'][o], dest=(o + 1, 'string', ['one', 'vec', 'one', 'vec'][o]))
        s.add(['p%d' % o], o=o, nargs=s.pick([1, 2]))
        if o % 2:
            s.mode(o, 'alt')
        else:
            s.mode(o, 'strict')
    for _ in range(8):
        o = s.r.randrange(s.nobj)
        s.op('parse', o, argv=['prog%d' % o] + s.pick([['-a', 'x'], ['-aa', 'x', 'y'], ['-a'], ['u'], ['u', 'w', 'z'], ['--aa=3', 'k', 'l'], ['-h'], ['--', '-a']]))
        for k in range(s.nobj):
            s.obs(k)
    for k in range(s.nobj):
        s.op('usage', k)


SHAPES = [(extras, 1), (lists, 1), (occurrences, 1), (nargs, 1), (definitions, 1), (positionals, 1), (flags, 1), (long_texts, 1), (parses, 1),
          (big_lists, 1), (redefinitions, 1), (numbers, 1), (nargs, 1), (redefinitions, 1), (huge, 1), (huge, 1), (nested, 2), (nested, 3), (many_objects, 4),
          (raising, 1), (raising, 1), (runs, 1), (runs, 1), (runs, 1), (runs, 1)]


def generate(seed, n, prefix='vol', only=None):
    out = []
    shapes = [x for x in SHAPES if only is None or x[0].__name__ in only]
    for i in range(n):
        r = random.Random('%s/%s/%d' % (seed, prefix, i))
        f, nobj = shapes[i % len(shapes)]
        s = Sc(r, nobj)
        f(s)
        out.append(s.done('%s%d' % (prefix, i)))
    return out


if __name__ == '__main__':
    import json
    import sys
    for sc in generate(sys.argv[1], int(sys.argv[2])):
        print(json.dumps(sc, ensure_ascii=True, separators=(',', ':')))

"""Families of texts: the inputs of MC_Text.

A profile is {"chars", "len", "widths", "per": texts in one scenario, "make":
the calls that show a list of texts to the implementation}.
"""
from histories import NICE, action, add, defaults, nargs, op, parse, valid


def see_numbers(ts, rng):
    """the texts as values of an infinite positional, of an infinite option
    written separately, and as defaults"""
    k = rng.randrange(4)
    ops = list(NICE)
    if k == 0:
        ops += [add('p'), action('p', 'INFINITE'), op('obs', probe=['p']), parse('--', *ts)]
    elif k == 1:
        ops += [add('-p'), action('-p', 'APPEND'), parse(*['-p=' + t for t in ts])]
    elif k == 2:
        ops += [add('-p'), action('-p', 'EXTEND'), nargs('-p', 2), defaults('-p', *(ts + ts if len(ts) % 2 else ts)), op('obs', probe=['-p']), parse()]
    else:
        ops += [add('-p')]
        for t in ts:
            ops += [parse('-p=' + t), op('obs', probe=['-p'])]
        return ops
    return ops + [op('obs', probe=['p', '-p'])]


def see_whole(ts, rng):
    ops = list(NICE) + [add('-p'), valid('-p', 1, True, 'number')]
    for t in ts:
        ops += [parse('-p=' + t), op('obs', probe=['-p'])]
    return ops


def see_wrapped(widths):
    def make(ts, rng):
        ops = list(NICE) + [add('-a', '--aa'), add('p')]
        for t in ts:
            w = rng.choice(widths)
            how = rng.randrange(4)
            if how == 0:
                ops += [op('text', k='desc', v=t), op('width', v=[w // 4, w // 4, w // 4, w - 3 * (w // 4)])]
            elif how == 1:
                ops += [op('text', k='epilog', v=t), op('width', v=[0, 0, 0, w])]
            elif how == 2:
                ops += [op('help', n='-a', v=t), op('width', v=[1, 3, 1, w])]
            else:
                ops += [op('help', n='p', v=t), op('width', v=[2, 20, 2, w])]
            ops += [op('usage')]
        return ops
    return make


def numbers(length):
    return [dict(chars=['1', '0', '.', '-', 'e', ' '], len=length, widths=[], per=24, make=see_numbers),
            dict(chars=['2', '+', 'E', '.', '5', 'x'], len=length, widths=[], per=24, make=see_numbers),
            dict(chars=['\t', '-', '.', '5', 'e1', 'e-', '10'], len=length - 1, widths=[], per=24, make=see_numbers)]


def whole(length):
    return [dict(chars=['1', '0', '.', '-', 'e', ' '], len=length, widths=[], per=12, make=see_whole)]


def wraps(length):
    ws = [0, 1, 2, 3, 4, 5, 7]
    return [dict(chars=['a', ' ', '\n'], len=length, widths=ws, per=24, make=see_wrapped(ws)),
            dict(chars=['bc', ' ', 'd'], len=length, widths=ws, per=24, make=see_wrapped(ws))]


NAMES = ['-a', '--bb', '-c', '--dd', '-e', '--ff', '-g', '--hh', '-i', '--jj', '-k', '--ll', '-m', '--nn', '-o', '--pp', '-q', '--rr', '-s', '--tt', '-u', '--vv', '-w', '--xx']


def lists(length):
    """every form of every length, then every change"""
    out = []
    whole = []
    for n in range(0, 23):
        l = NAMES[:n]
        for f in ('vector', 'init'):
            whole.append(dict(s=f, l=l))
        if n in (1, 2, 3, 4, 5, 7, 21):
            whole += [dict(s=f, l=l) for f in ('arr', 'sarr', 'carr')]
        if n > 1:
            whole.append(dict(s='vector', l=list(reversed(l))))
    whole += [dict(s=f, l=['-a']) for f in ('str', 'cstr', 'string')]
    whole += [dict(s=f, l=[x]) for f in ('str', 'cstr', 'string', 'vector', 'init', 'arr', 'sarr', 'carr') for x in ('', 'pos', '--bb', 'a b', '-')]
    more = [dict(s='plus', x='-y'), dict(s='plusc', x='--yy'), dict(s='plusa', x='-z'), dict(s='push', x='-1'), dict(s='plus2', x='-2', y='-3'), dict(s='copy'), dict(s='ret', x='-4')]
    out.append(dict(steps=whole + more, len=2, restart=False))
    some = [dict(s='empty'), dict(s='sized', n=2), dict(s='vector', l=['-a', '--bb']), dict(s='arr', l=['-a']), dict(s='str', l=['pos']), dict(s='init', l=['-a', '--bb', '-c'])]
    sets = [dict(s='set', i=i, x=x) for i, x in ((0, '-p'), (1, '-q'), (1, '-p'), (2, '-r'))]
    out.append(dict(steps=some + sets + more, len=length, restart=False))
    out.append(dict(steps=some + sets[:2] + more[:3], len=length, restart=True))
    # sized first and filled, in any order
    fill = [dict(s='sized', n=3)] + [dict(s='set', i=i, x=x) for i in range(3) for x in ('-p', '-q', '--rr')]
    out.append(dict(steps=fill, len=length + 1, restart=False))
    return out

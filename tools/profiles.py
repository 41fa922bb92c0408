"""Families of parser definitions with a token alphabet: the inputs of MC_Parse.

A profile is {"ops": calls that build the parser, "toks": alphabet, "len": the
longest command line, "probe": names to look up, "slots": user variables}.
"""
import itertools

KD = {  # kind -> (action, nargs)
    'BOOL': ('STORE_TRUE', None), 'BOOL0': (None, 0), 'REVBOOL': ('STORE_FALSE', None), 'SIMPLE': (None, None),
    'NUM': (None, 2), 'NUM3': (None, 3), 'INF': ('INFINITE', None), 'INFP': (None, 43), 'MULTI': ('APPEND', None),
    'MULTIINF': ('EXTEND', None), 'MULTINUM': ('APPEND', 2), 'MULTINUM3': ('APPEND', 3), 'MULTINUMINF': ('EXTEND', 2),
    'MULTINUMINF3': ('EXTEND', 3), 'HELP': ('HELP', None), 'VERSION': ('VERSION', None),
    'POS': (None, None), 'NUMPOS': (None, 2), 'NUMPOS3': (None, 3), 'INFPOS': ('INFINITE', None),
    'INFNUMPOS': ('INFINITE', 2), 'INFNUMPOS3': ('INFINITE', 3)}
OPTS = ['BOOL', 'REVBOOL', 'SIMPLE', 'NUM', 'INF', 'MULTI', 'MULTIINF', 'MULTINUM', 'MULTINUMINF']
POSS = ['POS', 'NUMPOS', 'INFPOS', 'INFNUMPOS']
DEFAULTS = {'SIMPLE': ['d'], 'NUM': ['d', 'e'], 'INF': ['d', 'e', 'f'], 'MULTI': ['d'], 'MULTIINF': ['d', 'e'],
            'MULTINUM': ['d', 'e'], 'MULTINUMINF': ['d', 'e', 'f', 'g'], 'POS': ['d'], 'NUMPOS': ['d', 'e'], 'INFPOS': ['d', 'e'],
            'INFNUMPOS': ['d', 'e', 'f', 'g'], 'BOOL': ['d'], 'REVBOOL': ['d'], 'NUM3': ['d', 'e', 'f'],
            'MULTINUM3': ['d', 'e', 'f'], 'NUMPOS3': ['d', 'e', 'f']}


class B(object):
    """builder of the calls"""

    def __init__(self, nice=True, hv='hv'):
        """nice: no command line ends in exit()"""
        self.ops = []
        self.names = []
        self.slots = []
        self.nice = nice
        if nice or 'h' in hv:
            self.mode('hex')
        if nice or 'v' in hv:
            self.mode('vex')

    def op(self, _name, **kw):
        self.ops.append(dict(dict(op=_name, o=0), **kw))
        return self

    def mode(self, k, v=True):
        return self.op('mode', k=k, v=v)

    def arg(self, names, kind, defaults=None, required=False, valid=None, dest=None):
        if isinstance(names, str):
            names = names.split()
        self.names += names
        self.op('add', names=names, form='vec')
        n = names[0]
        action, nargs = KD[kind]
        if action:
            self.op('action', n=n, v=action)
        if nargs is not None:
            self.op('nargs', n=n, v=nargs)
        if defaults:
            self.op('defaults', n=n, v=list(defaults), form='vec')
        if required:
            self.op('required', n=n, v=True)
        if valid:
            self.op('valid', n=n, v=valid)
        if dest:
            slot = len(self.slots) + 1
            self.slots.append(slot)
            self.op('dest', n=n, slot=slot, type=dest[0], shape=dest[1], custom=len(dest) > 2)
        return self

    def profile(self, toks, length, fam):
        probe = sorted(set(self.names) | {'-h', '--help', '--none'}, key=lambda s: s.encode('latin-1'))
        seen = []
        for t in toks:
            if t not in seen:
                seen.append(t)
        return dict(ops=self.ops, toks=seen, len=length, probe=probe, slots=self.slots, nice=self.nice, fam=fam)


def one_option(length, extra=(), kinds=None):
    """an option of every kind, a switch, and a positional"""
    out = []
    for k in kinds or ['SIMPLE', 'NUM', 'NUM3', 'INF', 'INFP', 'MULTI', 'MULTIINF', 'MULTINUM', 'MULTINUMINF', 'BOOL', 'REVBOOL', 'BOOL0']:
        for d in (False, True):
            b = B()
            b.arg('-a --aa', k, DEFAULTS.get(k) if d else None)
            b.arg('-s', 'BOOL')
            if d:
                b.arg('pos', 'POS')
            toks = ['-a', '-ax', '--aa', '--aa=x', '-s', '-sa', 'v', '--'] + list(extra)
            out.append(b.profile(toks, length, 'one'))
    return out


def arity(length):
    """few tokens, long lines: every arity and number of groups"""
    out = []
    for k in ['NUM', 'NUM3', 'MULTINUM', 'MULTINUM3', 'MULTINUMINF', 'MULTINUMINF3', 'INF', 'MULTIINF']:
        b = B().arg('-a --aa', k).arg('-s', 'BOOL')
        out.append(b.profile(['-a', 'v', '-s'], length, 'arity'))
        b = B().arg('-a --aa', k).arg('-s', 'BOOL')
        out.append(b.profile(['-a', 'v', '-as', '-sas', '-sa', '-x', '--x'], length - 2, 'arity'))
    for k in ['NUMPOS', 'NUMPOS3', 'INFPOS', 'INFNUMPOS', 'INFNUMPOS3']:
        b = B().arg('p', k).arg('-s', 'BOOL')
        out.append(b.profile(['v', 'w', '-s'], length, 'arity'))
    return out


def occurrences(length):
    """repeated occurrences mixed in clusters and spellings"""
    out = []
    for k in OPTS + ['HELP', 'VERSION']:
        for d in (False, True):
            b = B().arg('-a --aa', k, DEFAULTS.get(k) if d else None).arg('-s --ss', 'BOOL')
            out.append(b.profile(['-a', '-sa', '--aa', '-ss', '-sax', 'v'], length, 'occ'))
    return out


NUMS = ['0', '-0', '00', '+1', '-1', '--1', '1', '10', '007', '1.', '.1', '.', '-.5', '+.5', '1.5', '1..5', '1.5.5', '1e1', '1e', '1e+', '1e-', '1e-1', '1E2',
        '1e+2', 'e1', '1ee1', '1e1.5', '1e400', '1e-400', '-1e400', '123456.789', '0x10', '0x', 'x', 'inf', 'nan', 'infinity', ' 1', '1 ', '\t2', '\n3', '1,5',
        '1_000', '', ' ', '- 1', '1-', '1+1', '5abc', 'abc5', '99999999999999999999', '0.000001', '2147483647', '-2147483648', '1e05', '000.5000']


def numbers(length):
    out = []
    for k in ['SIMPLE', 'MULTI', 'INF', 'POS', 'INFPOS', 'NUM', 'MULTINUMINF', 'BOOL', 'INFNUMPOS']:
        for up in (False, True):
            b = B().arg('p' if 'POS' in k else '-a', k, ['1.5' for _ in DEFAULTS[k]] if k != 'BOOL' else None,
                        valid=dict(k='prefix', vid=1, **{'del': True}) if up else None)
            nums = NUMS[::3] if up else NUMS
            if k in ('SIMPLE', 'MULTI', 'INF'):
                toks, ln = ['-a=' + x for x in nums], 1
            elif k in ('POS', 'INFPOS'):
                toks, ln = [x for x in nums if not x.startswith('-')], 1
            elif k == 'BOOL':
                toks, ln = ['-a', '5'], 2
            else:
                toks, ln = (['-a'] if 'POS' not in k else []) + nums[::9 if up else 5], 3
            out.append(b.profile(toks, ln + length - 1 if ln < 3 and length > 1 else ln, 'num'))
    return out


def spellings(length):
    """every spelling of one- and many-valued options, values with = and dashes"""
    out = []
    for k in ['SIMPLE', 'MULTI', 'INF', 'MULTIINF']:
        b = B().arg('-a --aa --alpha', k, DEFAULTS[k]).arg('-s --ss', 'BOOL').arg('-r', 'REVBOOL')
        out.append(b.profile(['-a', '-a=', '-a=x=y', '-ax', '-a-s', '--aa', '--aa=', '--alpha=-s', '-sra', '-srax', '-sra=x', '-sra-s', '-s', '-sr', 'v', '='], length, 'spell'))
    for k in ['SIMPLE', 'MULTI']:
        b = B().arg('-a --aa', k).arg('-= --=', 'BOOL').arg('-- ---'.split()[1:], 'SIMPLE').arg('-x --x=y', 'SIMPLE')
        out.append(b.profile(['-a', '-a=', '-=', '-a==', '-=a', '--=', '--==', '---', '---=1', '---x', '--x=y', '--x=y=z', '-x=y', 'v', '-xa'], length, 'spell'))
    return out


def pairs(length, full=True):
    """two valued options: where a run of values ends"""
    out = []
    ks = ['SIMPLE', 'NUM', 'INF', 'MULTI', 'MULTIINF', 'MULTINUM', 'MULTINUMINF']
    for x in ['INF', 'MULTIINF', 'MULTINUMINF', 'NUM', 'MULTINUM', 'SIMPLE']:
        for y in (ks + ['BOOL'] if full else ['SIMPLE', 'NUM', 'BOOL', 'INF']):
            b = B().arg('-a --aa', x).arg('-b --bb', y).arg('-s', 'BOOL')
            out.append(b.profile(['-a', '-b', '--bb', '-bx', '-b=1', '-sb', '-zs', '-sz', '--zz', 'v', '-', '--'], length, 'pair'))
    return out


def positionals(length, orders=None):
    out = []
    combos = [(k,) for k in POSS] + list(itertools.product(POSS, POSS))
    for c in combos:
        for req in ((), (len(c) - 1,)):
            for strict in (False, True):
                b = B()
                if strict:
                    b.mode('strict')
                for i, k in enumerate(c):
                    b.arg('p%d' % (i + 1), k, DEFAULTS[k] if (i + len(req)) % 2 else None, required=i in req)
                b.arg('-o', 'SIMPLE').arg('-s', 'BOOL').arg('-i', 'INF')
                out.append(b.profile(['v', 'w', '-s', '-o', '--', '-ox'], length, 'pos'))
    return out


def positionals3(length):
    out = []
    for c in itertools.product(['POS', 'NUMPOS', 'INFPOS', 'INFNUMPOS'], repeat=3):
        for req in range(8):
            if (hash_(c) + req) % 4:
                continue
            b = B()
            for i, k in enumerate(c):
                b.arg('p%d' % (i + 1), k, required=bool(req >> i & 1))
            b.arg('-s', 'BOOL')
            out.append(b.profile(['v', 'w', '-s', '--'], length, 'pos3'))
    return out


def hash_(c):
    return sum(POSS.index(x) * 5 ** i for i, x in enumerate(c))


def ends(length):
    out = []
    for x in ['SIMPLE', 'NUM', 'INF', 'MULTI', 'MULTIINF', 'MULTINUM', 'MULTINUMINF', 'BOOL']:
        for p in [(), ('POS',), ('NUMPOS',), ('INFPOS',), ('INFNUMPOS',), ('POS', 'INFPOS')]:
            b = B()
            b.arg('-a --aa', x)
            for i, k in enumerate(p):
                b.arg('p%d' % i, k, required=(i == 1))
            b.arg('-s', 'BOOL')
            out.append(b.profile(['-a', '--aa=x', '-s', 'v', '', '--', '--help', '-z'], length, 'end'))
    return out


def alt(length):
    out = []
    for on in (True, False):
        for k in ['SIMPLE', 'INF', 'BOOL', 'NUM', 'MULTI', 'MULTINUMINF']:
            b = B()
            if on:
                b.mode('alt')
            b.arg('-a', 'BOOL').arg('-b', 'SIMPLE').arg('--ab', k).arg('--a', 'SIMPLE').arg('-n --name', 'INF').arg('--zed', k)
            out.append(b.profile(['-zed', '-zed=x', '-ab', '-ab=x', '--ab', '-a', '-a=x', '--a', '-b', '-ba', '-n', '-name', '-name=x', '-nam', 'v', '--'],
                                 length, 'alt'))
    return out


def bad(length):
    """malformed lines"""
    out = []
    for strict in (False, True):
        for k in OPTS + ['HELP', 'VERSION']:
            b = B()
            if strict:
                b.mode('strict')
            b.arg('-a --aa', k).arg('-s --ss', 'BOOL').arg('-v', 'SIMPLE').arg('-n', 'NUM')
            if not strict:
                b.arg('p', 'NUMPOS')
            out.append(b.profile(['-a', '-a=', '-aq', '-sa', '-sq', '--aa=x', '--ss=', '-vs', '-nsv', '-ns=', '-ssas=x', '-ssvs=', '-sssqa', 'v', '--', '-q', '--qq=1', '-=x', '--='],
                                 length, 'bad'))
    return out


def required(length):
    out = []
    for x, y in itertools.product(['SIMPLE', 'BOOL', 'INF', 'MULTINUMINF'], ['POS', 'INFPOS', 'NUM', 'REVBOOL']):
        for r in ((True, False), (True, True), (False, True)):
            for hv in range(3):
                b = B()
                b.arg('-a --aa', x, DEFAULTS.get(x), required=r[0])
                b.arg('p' if 'POS' in y else '-b', y, DEFAULTS.get(y) if hv else None, required=r[1])
                if hv == 1:
                    b.arg('-V --version', 'VERSION', required=True)
                    b.op('text', k='version', v='1.0')
                if hv == 2:
                    b.arg('-x', 'HELP').arg('-h', 'BOOL')
                out.append(b.profile(['-a', '-ax', '--aa=', '-b', 'v', '--', '--help', '-h', '-V', '-x', '-z'], length, 'req'))
    return out


def helps(length):
    """help and version options under various flags and modes, with validators and destinations"""
    out = []
    rej = lambda i: {'k': 'reject', 'vid': i, 'del': True}
    for hv in range(12):
        for mode in ('hv', 'h', 'v', ''):
            nice = mode == 'hv'
            if not nice and (hv % 4 in (1, 2) or hv > 7) and mode:
                continue
            b = B(nice, mode)
            b.op('text', k='version', v='version 1').op('text', k='desc', v='about').op('help', n='--none', v='x')
            if hv in (0, 4):
                b.arg('-x --xx', 'HELP')
            if hv in (1, 5):
                b.arg('-h', 'BOOL').arg('-k', 'HELP')
            if hv in (2, 6):
                b.arg('--help', 'SIMPLE')
            if hv == 3:
                b.arg('-h --help', 'HELP')
            if hv == 8:
                b.arg('-x --xx --xxx -k', 'HELP')
            if hv == 9:
                b.arg('--xx -x', 'HELP', required=True)
            if hv == 10:
                b.arg('--help -h -k', 'HELP')
            if hv in (4, 5, 6, 7):
                b.arg('-V --version', 'VERSION')
            elif hv > 7:
                b.arg(['--version --vers -V', '-V', '-V -v --version', '-V --v1 --v2'][hv - 8], 'VERSION', required=hv == 11)
            if hv == 7:
                b.mode('alt')
            b.arg('-a', 'SIMPLE', valid=rej(1), dest=('string', 'one'))
            b.arg('-s', 'BOOL').arg('-r', 'SIMPLE', required=True)
            toks = ['-h', '--help', '-x', '-sx', '-k', '--version', '-sV', '-av', '-r', 'v', '-help', '--help=1', '--'] + (['-xsx', '--xxx', '-VsV'] if hv > 7 else [])
            out.append(b.profile(toks, length if nice else min(length, 2), 'help'))
    return out


VALIDS = [dict(k='number'), dict(k='minmax', min='0', max='10'), dict(k='minmax', min='5.5', max='-5'), dict(k='minmax', min='1', max='1'),
          dict(k='minmax', min='-2.5e9', max='4294967296.5'), dict(k='minmax', min='0.1', max='0.30000001'), dict(k='minmax', min='inf', max='1e6'),
          dict(k='choice', choices=['a', 'b', '', '5']), dict(k='choice', choices=[]), dict(k='path', mode='ALL'),
          dict(k='path', mode='DIR'), dict(k='path', mode='FILE')] + \
         [dict(k=k) for k in ['accept', 'reject', 'throw', 'upper', 'prefix', 'shrink', 'grow', 'erase', 'notbad', 'reverse']]
NUMTOK = ['0', '10', '10.0001', '-0.0001', '5.5', '-5', '-5.01', '1', '1e1', '1e', '0x1', ' 7', '7 ', '+3', 'abc', '', '5', '4294967297', '-25e8', '3e9', '0.1', '0.3', '0.300000011', '1e6', '1e999', '999999.5']
PATHTOK = ['fs_dir', 'fs_file', 'fs_none', 'fs_fifo', 'fs_ldir', 'fs_lfile', 'fs_dangling', 'fs_file/', 'fs_dir/inner', '']


def validators(length, kinds=None):
    out = []
    for v in VALIDS:
        for k in kinds or ['SIMPLE', 'NUM', 'INF', 'MULTI', 'MULTINUM', 'MULTINUMINF', 'POS', 'INFPOS', 'INFNUMPOS', 'BOOL']:
            vv = dict(v, vid=1)
            vv['del'] = True
            if v['k'] == 'choice':
                vv['form'] = 'vec'
            if v['k'] in ('number', 'minmax'):
                vals = NUMTOK
            elif v['k'] == 'path':
                vals = PATHTOK
            else:
                vals = ['a', 'b', 'bad', '', '5', 'A']
            b = B().arg('p' if 'POS' in k else '-a', k, valid=vv)
            b.arg('-s', 'SIMPLE', valid=dict(vid=2, k='notbad', **{'del': False}))
            single = k in ('SIMPLE', 'POS', 'MULTI', 'BOOL')
            few = vals if single else vals[:6]
            toks = ([] if 'POS' in k else ['-a']) + few + (['-sbad'] if single else ['-sok'])
            out.append(b.profile(toks, length if not single else min(length, 2), 'valid'))
    return out


def bounds(length):
    """every pair of bounds, values on, inside and outside them"""
    out = []
    bs = ['-5', '-1', '0', '1', '5.5']
    vals = ['-6', '-5', '-4', '-1', '-0.5', '0', '0.5', '1', '1.0001', '5.5', '6', 'x']
    for a in bs:
        for c in bs:
            for k in (['SIMPLE', 'INF'] if bs.index(a) <= bs.index(c) else ['SIMPLE', 'MULTINUM']):
                b = B().arg('-a', k, valid={'k': 'minmax', 'min': a, 'max': c, 'vid': 1, 'del': True})
                if k == 'SIMPLE':
                    out.append(b.profile(['-a=' + v for v in vals], 1, 'bounds'))
                else:
                    out.append(b.profile(['-a', '-3', '0', '2', '7'], length, 'bounds'))
    return out


def dests(length, types=('string', 'cstr', 'bool', 'char', 'int', 'uint', 'double', 'float', 'long', 'uchar', 'short', 'ushort', 'ulong', 'llong', 'ullong', 'ldouble')):
    out = []
    n = 0
    for k in ['SIMPLE', 'BOOL', 'REVBOOL', 'NUM', 'INF', 'MULTI', 'MULTINUM', 'MULTINUMINF', 'POS', 'NUMPOS', 'INFPOS', 'INFNUMPOS']:
        for shape in ('one', 'vec', 'vv'):
            if shape == 'one' and k in ('NUM', 'INF', 'MULTI', 'MULTINUM', 'MULTINUMINF', 'NUMPOS', 'INFPOS', 'INFNUMPOS'):
                continue
            for custom in (False, True):
                for d in (False, True):
                    n += 1
                    ts = [types[n % len(types)], types[(n * 5 + 3) % len(types)]]
                    for t in ts:
                        b = B()
                        dd = [{'d': '5', 'e': '-7.5', 'f': '0', 'g': '1'}[x] for x in DEFAULTS[k]] if d and k not in ('BOOL', 'REVBOOL') else None
                        b.arg('p' if 'POS' in k else '-a', k, dd, dest=(t, shape) + (('c',) if custom else ()))
                        b.arg('-s', 'BOOL', dest=('bool', 'one'))
                        b.arg('-t', 'SIMPLE')
                        toks = (['-a', '-a=8'] if 'POS' not in k else []) + ['12', '-3', 'x', '-s', '-tx', '--']
                        out.append(b.profile(toks, length, 'dest'))
    return out


def conversions(length):
    """every type with the texts that matter to it"""
    out = []
    longs = ['abcdefghijklmnopq'[:n] for n in range(18)]
    ints = ['0', '-0', '1', '-1', '127', '128', '-128', '-129', '255', '256', '32767', '32768', '-32768', '40000', '65535', '65536', '2147483647', '2147483648', '-2147483648',
            '4294967295', '4294967296', '5000000000', '-5000000000', '9007199254740993', '1e15', '1e18', '12.9', '-12.9', '0.5', '1e400', 'x', '', '0x1f', ' 7', '+7', 'true']
    reals = ['0', '-0', '0.1', '-0.1', '1e-5', '123456789.5', '16777217', '3.4e38', '3.5e38', '1e300', '1e400', '1e-400', '5e-324', '0.30000000000000004', '12345678901234567890',
             '1.5x', 'x', '', '.5', '5.', '-.5e1', 'nan', 'inf', '0x1f', 'true']
    for t in ('char1', 'char4', 'char5', 'char6', 'char16'):
        out.append(B().arg('-a', 'SIMPLE', dest=(t, 'one')).profile(['-a=' + x for x in longs], 1, 'conv'))
    for t in ('string', 'cstr'):
        for shape in ('one', 'vec'):
            out.append(B().arg('-a', 'SIMPLE', dest=(t, shape)).profile(['-a=' + x for x in longs[::4] + ['\u00e9\u00ff', ' a b ', '\n', '=']], 1, 'conv'))
    for t in ('bool', 'char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong'):
        for shape in ('one', 'vec', 'vv'):
            k = {'one': 'SIMPLE', 'vec': 'INF', 'vv': 'MULTINUMINF'}[shape]
            toks = ['-a=' + x for x in ints] if k == 'SIMPLE' else ['-a'] + ints[::3]
            out.append(B().arg('-a', k, dest=(t, shape)).profile(toks, 1 if k == 'SIMPLE' else length, 'conv'))
    for t in ('float', 'double', 'ldouble'):
        for shape in ('one', 'vec', 'vv'):
            k = {'one': 'SIMPLE', 'vec': 'INF', 'vv': 'MULTINUMINF'}[shape]
            toks = ['-a=' + x for x in reals] if k == 'SIMPLE' else ['-a'] + reals[::3]
            out.append(B().arg('-a', k, dest=(t, shape)).profile(toks, 1 if k == 'SIMPLE' else length, 'conv'))
    return out


def exotic(length):
    """unusual flags"""
    out = []
    for k in ['SIMPLE', 'BOOL', 'INF']:
        b = B().arg('-1', k).arg('-=', 'BOOL').arg('--1', 'SIMPLE').arg('--= ---', k)
        out.append(b.profile(['-1', '-=', '-=1', '-1=', '-11', '--1', '--1=', '--=', '---', '---=x', '----', '-', '=', '-=='], length, 'exotic'))
        b = B().mode('alt').arg('-1', k).arg('-=', 'BOOL').arg('--1', 'SIMPLE').arg('--= ---', k)
        out.append(b.profile(['-1', '-=', '-=1', '-1=', '-11', '--1', '--=', '---', '---=x', '----', '-', '--', '-=='], length, 'exotic'))
    return out


def one_of_all(length):
    """many kinds together"""
    out = []
    b = B()
    for l, k in zip('abcdefgij', OPTS):
        b.arg('-%s --%s%s' % (l, l, l), k)
    b.arg('p', 'NUMPOS')
    out.append(b.profile(['-a', '-b', '-c', '-d', '-e', '-f', '-g', '-i', '-j', '-abcx', '-abd', '--ff=x', 'v', '--'], length, 'all'))
    return out

"""Seeded random scenarios: definition histories, command lines, observations.

The generator only chooses calls; what they must do is decided by the TLA+
specification when the recorded trace is checked.  It keeps a rough mirror of
the definitions so that most command lines make sense.
"""
import json
import random

ACTIONS = ['NONE', 'HELP', 'VERSION', 'STORE_TRUE', 'STORE_FALSE', 'APPEND', 'EXTEND', 'INFINITE']
NUMBERS = ['0', '1', '-1', '+7', '3.5', '-2.25', '0.125', '1e2', '1E+2', '2.5e-1', '.5', '5.', '12abc', '  42',
           '\t7', '0x10', '007', '-0', '99999.5', '1 2', '42', '8', '10', '100', '-5', '65', '300', '1.5x', '1 ',
           '12e', '1e', '7e+', '3.14159', '0.0625', '1e5', '2e-3', '0x1F', '1e-1', '-.25', '+.5e1', '999999',
           '40000', '-32768', '65535', '3000000000', '-2147483648', '5000000000', '1234567891', '123456789.5', '16777217',
           '1e20', '-2.5e19', '0.000123', '0.1', '1.7e308', '5e-310', '123456789012345', '12345678901234567890', '0.30000000000000004',
           '99.9999999', '1e15', '1000001', '255', '-129']
BOUNDS = [('0', '10'), ('10', '0'), ('-5', '5.5'), ('1', '1'), ('0', '0'), ('-100', '-1.5'), ('0.125', '250'), ('0', '999999'),
          ('-2.25', '3.5'), ('-2147483648', '2147483647'), ('0', '4294967295'), ('0.1', '0.3'), ('1e-5', '1e20'), ('-inf', '10'),
          ('99.99999', '100'), ('65536', '-1e6'), ('12.5', '123456.7'), ('0.000122', '0.000124')]
NONNUM = ['abc', '', '-', '+', '.', 'e5', 'nan', 'inf', '-inf', 'Infinity', '1e400', '--5', 'x1', ' ', '- 1', '+-1',
          '1e+', '2E', '5e-', '-1e309', '1e999999', 'NaN', '0x', '0xg', '-e', '1_0']
WORDS = ['v', 'foo', 'bar', 'bad', 'a', 'b', 'value', 'x=y', '=', '=x', 'a b', 'true', 'false', 'caf\u00e9', '\u00ff\u0080',
         'one', 'two', 'three', 'A', "it's", '"q"', 'p\tq', 'x\ny', 'n', 'ab', 'abc', 'pos', '0', '-5']
LOOKALIKES = ['-a', '-b', '-c', '--aa', '--bb', '--zz', '-z', '-ab', '-ba', '--aa=1', '-a=1', '-', '---', '-=', '--=',
              '-1', '-1.5', '--a', '-aa', '-bb', '-h', '--help', '--a=b', '=-a', '-abc', '--b', '-av', '-bv']
PATHS_OK = ['fs_dir', 'fs_dir/', 'fs_dir/sub', 'fs_ldir', 'fs_file', 'fs_dir/inner', 'fs_lfile', '.', 'fs_fifo',
            'fs_dir/../fs_file', './fs_file', 'fs_dir/..']
PATHS_BAD = ['fs_none', 'fs_file/', 'fs_dir/none', 'fs_dangling', '', 'fs_file/x']
CHOICES = ['a', 'b', 'value', 'one', 'two', '', 'x=y', '5', 'foo']
SHORTS = ['-a', '-b', '-c', '-d', '-e', '-f', '-x', '-1', '-A', '-=', '-V', '-h', '-\u00e9', '- ']
LONGS = ['--aa', '--bb', '--cc', '--dd', '--a', '--b', '--abc', '--ab', '--long-name', '--aaa', '--help', '--version',
         '--x=y', '---', '--=', '--1', '--h', '--ac', '--\u00e9t', '--a b']
POSN = ['pos', 'file', 'p1', 'p2', 'p3', 'x', 'name', 'a', 'val ue', '=', '/p', 'rest']
BADFLAGS = ['', '-', '--', 'nodash', '-ab', '-abc', 'x-y', '-=x', ' -a']
FORMS = ['vec', 'vector', 'init', 'plus', 'plusc', 'sized', 'arr', 'sarr', 'carr']
FORMS1 = FORMS + ['str', 'cstr', 'string']
TYPES = ['string', 'cstr', 'bool', 'char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong',
         'float', 'double', 'ldouble']
CUSTOM_V = ['accept', 'reject', 'throw', 'upper', 'prefix', 'shrink', 'grow', 'erase', 'notbad', 'reverse', 'raise']
TEXT = ['', 'help', 'short text', 'a longer help text that goes past the width of the help column, and then on and on',
        'two\nlines', 'line one is here\n\nline three after an empty one\n', 'word' * 20, 'x ' * 45, '  leading spaces',
        'trailing   ', 'a' * 56, 'b' * 55 + ' c', 'd' * 56 + ' e', 'f' * 57, 'tab\there', '\n', ' ', 'one  two   three    four',
        'exactly-' * 7, 'w ' + 'y' * 60 + ' z', 'caf\u00e9 ' * 12]

SWITCH = {'BOOL', 'REVBOOL'}
VALUELESS = {'BOOL', 'REVBOOL', 'HELP', 'VERSION'}
GROUP = {'INFNUMPOS', 'MULTINUM', 'MULTINUMINF'}
LISTS = {'NUMPOS', 'INFPOS', 'NUM', 'INF', 'MULTI', 'MULTIINF'} | GROUP


def kind_of(pos, action, nargs):
    """normalized (kind, action, nargs); mirror of KindRec"""
    if pos:
        if nargs == 1 and action == 'NONE':
            return 'POS', action, nargs
        if (nargs == 43 and action == 'NONE') or (nargs == 1 and action == 'INFINITE'):
            return 'INFPOS', 'INFINITE', 1
        if nargs > 1 and action == 'NONE':
            return 'NUMPOS', action, nargs
        if nargs > 1 and action == 'INFINITE':
            return 'INFNUMPOS', action, nargs
        return 'BAD', action, nargs
    if action == 'STORE_FALSE':
        return 'REVBOOL', action, 0
    if action in ('HELP', 'VERSION'):
        return action, action, 0
    if nargs == 0 or action == 'STORE_TRUE':
        return 'BOOL', action, 0
    if nargs == 1 and action == 'NONE':
        return 'SIMPLE', action, nargs
    if (nargs == 43 and action == 'NONE') or action == 'INFINITE':
        return 'INF', 'INFINITE', 1
    if action == 'NONE':
        return 'NUM', action, nargs
    if action == 'APPEND':
        return ('MULTI' if nargs == 1 else 'MULTINUM'), action, nargs
    return ('MULTIINF' if nargs == 1 else 'MULTINUMINF'), action, nargs


# (pos, action, nargs) for each kind
KIND_DEFS = {
    'BOOL': [(False, 'STORE_TRUE', None), (False, 'NONE', 0), (False, 'STORE_TRUE', 3)],
    'REVBOOL': [(False, 'STORE_FALSE', None), (False, 'STORE_FALSE', 2)],
    'HELP': [(False, 'HELP', None)], 'VERSION': [(False, 'VERSION', None)],
    'SIMPLE': [(False, None, None), (False, 'NONE', 1)],
    'NUM': [(False, None, 2), (False, None, 3), (False, None, 5), (False, None, 2), (False, None, 3), (False, None, 9)],
    'INF': [(False, 'INFINITE', None), (False, None, 43), (False, 'INFINITE', 4)],
    'MULTI': [(False, 'APPEND', None)],
    'MULTIINF': [(False, 'EXTEND', None)],
    'MULTINUM': [(False, 'APPEND', 2), (False, 'APPEND', 3), (False, 'APPEND', 2), (False, 'APPEND', 3), (False, 'APPEND', 5)],
    'MULTINUMINF': [(False, 'EXTEND', 2), (False, 'EXTEND', 3), (False, 'EXTEND', 2), (False, 'EXTEND', 4)],
    'POS': [(True, None, None)],
    'NUMPOS': [(True, None, 2), (True, None, 3), (True, None, 2), (True, None, 3), (True, None, 4)],
    'INFPOS': [(True, 'INFINITE', None), (True, None, 43)],
    'INFNUMPOS': [(True, 'INFINITE', 2), (True, 'INFINITE', 3), (True, 'INFINITE', 2), (True, 'INFINITE', 4)],
}
OPT_KINDS = ['BOOL', 'REVBOOL', 'SIMPLE', 'NUM', 'INF', 'MULTI', 'MULTIINF', 'MULTINUM', 'MULTINUMINF']
POS_KINDS = ['POS', 'NUMPOS', 'INFPOS', 'INFNUMPOS']

DEFAULT_PROFILE = dict(
    nobj=1, args=(1, 5), p_pos=0.3, kinds=None, pos_kinds=None, p_required=0.15, p_defaults=0.35, p_bad_defaults=0.05,
    p_valid=0.12, valid_kinds=['number', 'minmax', 'choice', 'custom'], p_dest=0.2, p_custom_dest=0.2, p_texts=0.15,
    p_alt=0.2, p_strict=0.2, p_exit=0.05, p_help_arg=0.08, p_version_arg=0.12, p_flagop=0.15, p_redefine=0.1,
    p_refused=0.03, parses=(1, 2), occ=(0, 5), p_end=0.12, p_lookalike=0.06, p_special=0.05, p_wrong_count=0.08,
    p_cluster=0.25, p_help_tok=0.03, p_version_tok=0.05, p_mangle=0.08, p_usage=0.1, p_obs_def=0.1, p_long_value=0.02,
    p_between=0.3, history=0, p_remove=0.05, p_clear=0.02, p_copy=0.05, p_forms=0.3, values=None, p_unknown=0.04,
    p_width=0.1, p_number=0.3, p_same_slot=0.1, p_enum=0.02, p_toggle=0.0, p_help_free=0.5, max_flags=3, p_name_eq=0.06,
    p_bigargs=0.0, p_wild=0.15, p_default_texts=0.0, p_echo=0.05, p_many=0.02)


class Arg(object):
    def __init__(self, names, pos):
        self.names = list(names)
        self.pos = pos
        self.kind, self.action, self.nargs = kind_of(pos, 'NONE', 1)
        self.required = False
        self.defaults = []
        self.valid = None
        self.dest = None

    def define(self, action=None, nargs=None):
        k, a, n = kind_of(self.pos, self.action if action is None else action, self.nargs if nargs is None else nargs)
        if k != 'BAD':
            self.kind, self.action, self.nargs = k, a, n


class Gen(object):
    def __init__(self, rng, **prof):
        self.r = rng
        self.p = dict(DEFAULT_PROFILE)
        for k in prof:
            if k not in self.p:
                raise KeyError(k)
        self.p.update(prof)

    # -- small helpers
    def hit(self, key):
        return self.r.random() < self.p[key]

    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    def between(self, key):
        a, b = self.p[key]
        if key in ('occ', 'args') and b > 1 and self.hit('p_many'):
            a, b = b, b * 3
        return self.r.randint(a, b)

    # -- one scenario
    def scenario(self, sid):
        self.ops = []
        self.said = []
        self.vid = 0
        self.slots = {}
        self.booms = {}
        n = self.p['nobj']
        self.objs = [[] for _ in range(n)]
        self.alt = [False] * n
        self.everused = set()
        self.shared_vids = set()
        self.shared_valid = None
        for o in range(n):
            self.setup(o)
        seq = []
        for o in range(n):
            seq += [o] * self.between('parses')
        self.r.shuffle(seq)
        for o in seq:
            self.round(o)
        if self.hit('p_usage'):
            self.op('usage', self.r.randrange(n))
        return dict(id=sid, nobj=n, ops=self.ops)

    def op(self, name, o, **kw):
        d = dict(op=name, o=o)
        d.update(kw)
        self.ops.append(d)
        for k in ('n', 'v', 'names', 'argv'):
            v = kw.get(k)
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, str):
                    self.said.append(x)

    def text(self, pool=TEXT):
        """a text, sometimes one that was used before"""
        return self.pick(self.said) if self.said and self.hit('p_echo') else self.pick(pool)

    def probe(self):
        names = set(self.everused)
        names.update(['-h', '--help', '--none'])
        return sorted(names, key=lambda s: s.encode('latin-1'))

    def obs(self, o):
        self.op('obs', o, probe=self.probe())

    def form(self, n):
        if not self.hit('p_forms'):
            return 'vec'
        return self.pick(FORMS1 if n == 1 else FORMS)

    def help_text(self, a):
        if a.defaults and self.r.random() < 0.15:
            return self.pick([a.defaults[0], ', '.join(a.defaults), '(default: %s)' % a.defaults[0], '(required)', ''])
        return self.text()

    def texts(self, o):
        if self.hit('p_texts'):
            for k in ('version', 'binary', 'desc', 'epilog', 'usage'):
                if self.r.random() < (0.15 if k == 'usage' else 0.5):
                    v = self.text()
                    if k == 'binary':
                        v = self.pick(['prog', '/usr/bin/prog', './p', 'a/b/', '', 'x' * 70])
                    self.op('text', o, k=k, v=v)
        if self.hit('p_width'):
            self.op('width', o, v=self.pick([[2, 20, 2, 56], [0, 5, 1, 10], [1, 10, 0, 20], [4, 30, 3, 40], [2, 20, 2, 5],
                                             [0, 0, 0, 1], [3, 12, 2, 25], [2, 8, 2, 12], [1, 1, 1, 30]]))

    def modes(self, o):
        if self.hit('p_alt'):
            v = self.r.random() < 0.85
            self.op('mode', o, k='alt', v=v)
            self.alt[o] = v
        if self.hit('p_strict'):
            self.op('mode', o, k='strict', v=self.r.random() < 0.85)
        self.exits(o)

    def exits(self, o):
        """exceptions instead of exit() for help and version, mostly"""
        which = 'hv' if not self.hit('p_exit') else self.pick(['', 'h', 'v'])
        if 'h' in which:
            self.op('mode', o, k='hex', v=True)
        if 'v' in which:
            self.op('mode', o, k='vex', v=True)

    def setup(self, o):
        self.modes(o)
        self.texts(o)
        for _ in range(self.between('args')):
            self.define_new(o)
            if len(self.ops) > 150:
                break
        if self.hit('p_version_arg'):
            self.define_role(o, 'VERSION')
        if self.hit('p_help_arg'):
            self.define_role(o, 'HELP')
        for _ in range(self.p['history']):
            self.history_step(o)
        if self.hit('p_obs_def'):
            self.obs(o)
            if self.hit('p_usage'):
                self.op('usage', o)

    def free(self, pool, o):
        used = set(n for a in self.objs[o] for n in a.names)
        c = [x for x in pool if x not in used]
        return self.pick(c) if c else None

    def new_names(self, o, pos):
        if pos:
            n = self.free(POSN, o)
            return [n] if n else None
        shorts = [s for s in SHORTS if s != '-h' or self.r.random() < 0.2]
        longs = [s for s in LONGS if (s != '--help' or self.r.random() < 0.2)
                 and (self.r.random() < self.p['p_name_eq'] or '=' not in s and s != '---')]
        names = []
        for _ in range(self.pick([1, 1, 2, 2, 2, 3][:2 + 2 * self.p['max_flags'] - 2] or [1])):
            n = self.free(self.pick([shorts, longs]) or shorts, o)
            if n and n not in names:
                names.append(n)
        return names or None

    def add(self, o, names, pos):
        f = self.form(len(names))
        self.op('add', o, names=names, form=f)
        self.everused.update(names)
        a = Arg(names, pos)
        if any(n in b.names for b in self.objs[o] for n in names):
            return None
        self.objs[o].append(a)
        return a

    def define_role(self, o, act):
        if any(a.action == act for a in self.objs[o]):
            return
        names = None
        if act == 'HELP' and self.hit('p_help_free'):
            names = [n for n in ['-h', '--help'] if not any(n in a.names for a in self.objs[o])]
        names = names or self.new_names(o, False)
        if names:
            a = self.add(o, names, False)
            if a:
                self.set_action(o, a, act)

    def name(self, a):
        return self.pick(a.names)

    def set_action(self, o, a, v):
        self.op('action', o, n=self.name(a), v=v)
        a.define(action=v)

    def set_nargs(self, o, a, v):
        self.op('nargs', o, n=self.name(a), v=v)
        a.define(nargs=v)

    def define_new(self, o):
        pos = self.hit('p_pos')
        names = self.new_names(o, pos)
        if not names:
            return
        a = self.add(o, names, pos)
        if a is None:
            return
        if pos:
            k = self.pick(self.p['pos_kinds'] or POS_KINDS)
        else:
            k = self.pick(self.p['kinds'] or OPT_KINDS)
        self.shape(o, a, k)
        if self.hit('p_redefine'):
            self.redefine(o, a)

    def shape(self, o, a, k):
        """definition calls in random order"""
        _, act, nargs = self.pick(KIND_DEFS[k])
        todo = []
        if act is not None:
            todo.append(lambda: self.set_action(o, a, act))
        if nargs is not None:
            todo.append(lambda: self.set_nargs(o, a, nargs))
        if act == 'INFINITE' and nargs is not None and not a.pos:
            todo.reverse()
        free = []
        if self.hit('p_required'):
            free.append(lambda: self.set_required(o, a, True))
        if self.hit('p_valid'):
            free.append(lambda: self.set_valid(o, a))
        if self.hit('p_dest'):
            free.append(lambda: self.set_dest(o, a, k))
        if self.hit('p_texts') or self.hit('p_default_texts'):
            free.append(lambda: self.op('help', o, n=self.name(a), v=self.help_text(a)))
            if self.r.random() < 0.4:
                free.append(lambda: self.op('metavar', o, n=self.name(a), v=self.text(['M', 'META VAR', '', 'x' * 30])))
        if self.hit('p_flagop') and not a.pos:
            free.append(lambda: self.add_flag(o, a))
        if self.hit('p_copy'):
            free.append(lambda: self.op('copy', o, n=self.name(a)))
        self.r.shuffle(free)
        if a.pos and act == 'INFINITE' and nargs is not None and self.r.random() < 0.3:
            todo.reverse()
        if self.hit('p_defaults'):
            # defaults must fit the final definition: mostly after it
            if self.r.random() < 0.8:
                todo.append(lambda: self.set_defaults(o, a))
            else:
                todo.insert(0, lambda: self.set_defaults(o, a, k))
        merged = []
        while todo or free:
            src = todo if todo and (not free or self.r.random() < 0.5) else free
            merged.append(src.pop(0))
        for f in merged:
            f()

    def add_flag(self, o, a):
        n = self.free(self.pick([SHORTS[:10], LONGS[:10]]), o)
        if n:
            self.op('flag', o, n=self.name(a), v=n)
            a.names.append(n)
            self.everused.add(n)

    def set_required(self, o, a, v):
        self.op('required', o, n=self.name(a), v=v)
        a.required = v

    def set_defaults(self, o, a, k=None):
        kind = k or a.kind
        if kind in ('POS', 'SIMPLE'):
            n = 1
        elif kind in ('NUM', 'NUMPOS'):
            n = a.nargs
        elif kind in GROUP:
            n = a.nargs * self.r.randint(0, 3)
        elif kind in LISTS:
            n = self.r.randint(0, 4)
        else:
            n = self.r.randint(0, 2)
        if self.hit('p_bad_defaults'):
            n = self.r.randint(0, 5)
        v = [self.value(a) for _ in range(n)]
        self.op('defaults', o, n=self.name(a), v=v, form=self.form(len(v)))
        a.defaults = v

    def set_valid(self, o, a):
        vk = self.pick(self.p['valid_kinds'])
        if self.r.random() < 0.05:
            self.op('valid', o, n=self.name(a), v=dict(k='none', vid=0, **{'del': self.r.random() < 0.5}))
            a.valid = None
            return
        if a.valid and a.valid is not self.shared_valid and a.valid['vid'] not in self.shared_vids and self.r.random() < 0.15:
            # its own validator once more
            v = dict(a.valid, **{'del': self.r.random() < 0.6})
            self.op('valid', o, n=self.name(a), v=v)
            a.valid = v
            return
        self.vid += 1
        v = {'k': vk, 'vid': self.vid, 'del': self.r.random() < 0.7}
        if vk == 'custom':
            v['k'] = self.pick(CUSTOM_V)
        elif vk == 'minmax':
            v['min'], v['max'] = self.r.choice(BOUNDS)
        elif vk == 'choice':
            n = self.r.randint(0, 5) if self.r.random() < 0.95 else 20
            v['choices'] = [self.pick(CHOICES) for _ in range(n)]
            v['form'] = self.form(n)
        elif vk == 'path':
            v['mode'] = self.pick(['ALL', 'DIR', 'FILE'])
        if not v['del'] and self.shared_valid is not None and self.r.random() < 0.3:
            v = self.shared_valid
            self.shared_vids.add(v['vid'])
        elif not v['del']:
            self.shared_valid = v
        self.op('valid', o, n=self.name(a), v=v)
        a.valid = v

    def set_dest(self, o, a, k=None):
        kind = k or a.kind
        if kind in GROUP:
            shape = self.pick(['vv', 'vv', 'vec', 'one'] if self.r.random() < 0.3 else ['vv', 'vec'])
        elif kind in LISTS:
            shape = self.pick(['vec', 'vec', 'vv', 'one'] if self.r.random() < 0.3 else ['vec', 'vv'])
        else:
            shape = self.pick(['one', 'one', 'one', 'vec', 'vv'])
        if self.slots and self.hit('p_same_slot'):
            s = self.pick(sorted(self.slots))
            type_, shape, custom = self.slots[s]
        else:
            if len(self.slots) >= 6:
                return
            s = len(self.slots) + 1
            if kind in VALUELESS:
                type_ = self.pick(TYPES)
            elif (a.valid or {}).get('k') in ('number', 'minmax'):
                type_ = self.pick(TYPES[2:])
            else:
                type_ = self.pick(['string', 'string', 'cstr'] + TYPES)
            if shape == 'one' and self.r.random() < 0.12:
                type_ = self.pick(['char1', 'char4', 'char5', 'char6', 'char16'])
            if self.hit('p_enum'):
                type_ = 'enum'
            custom = self.hit('p_custom_dest')
            self.slots[s] = (type_, shape, custom)
        # the driver keeps this for each variable
        boom = {'boom': True} if custom and self.booms.setdefault(s, self.r.random() < 0.3) else {}
        self.op('dest', o, n=self.name(a), slot=s, type=type_, shape=shape, custom=custom, **boom)
        a.dest = s

    def redefine(self, o, a):
        what = self.r.randrange(9)
        if what <= 2:
            k = self.pick(POS_KINDS if a.pos else OPT_KINDS)
            _, act, nargs = self.pick(KIND_DEFS[k])
            if act is None:
                act = 'NONE'
            if nargs is None:
                nargs = 1
            l = [lambda: self.set_action(o, a, act), lambda: self.set_nargs(o, a, nargs)]
            if self.r.random() < 0.5:
                l.reverse()
            for f in l[:self.pick([1, 2, 2])]:
                f()
        elif what == 3:
            self.set_defaults(o, a)
        elif what == 4:
            self.set_required(o, a, self.r.random() < 0.5)
        elif what == 5:
            self.set_valid(o, a)
        elif what == 6:
            self.set_dest(o, a)
        elif what == 7 and not a.pos:
            self.add_flag(o, a)
        else:
            self.op('help', o, n=self.name(a), v=self.help_text(a))

    def refused(self, o):
        """a definition call that is (most likely) refused"""
        args = self.objs[o]
        w = self.r.randrange(9)
        a = self.pick(args) if args else None
        if w == 0:
            self.op('add', o, names=[self.pick(BADFLAGS)], form='vec')
        elif w == 1 and a:
            l = [self.name(a), self.free(LONGS[:10], o) or '--q']
            self.r.shuffle(l)
            self.everused.update(l)
            self.op('add', o, names=l, form=self.form(2))
        elif w == 2:
            l = [self.free(SHORTS[:8], o) or '-q', self.pick(BADFLAGS)]
            self.r.shuffle(l)
            self.everused.add(l[0])
            self.op('add', o, names=l, form='vec')
        elif w == 3 and a:
            self.op('flag', o, n=self.name(a), v=self.pick(BADFLAGS + [self.name(self.pick(args))]))
        elif w == 4:
            l = [self.pick(['--none', '-q', 'nope'])] + ([self.name(a)] if a else [])
            self.r.shuffle(l)
            self.op('remove', o, names=l, form='vec')
        elif w == 5 and a:
            n = a.nargs
            self.op('defaults', o, n=self.name(a), v=['d'] * (n + 1 if n else 3), form='vec')
        elif w == 6:
            self.op(self.pick(['add', 'remove']), o, names=[], form='vec')
        elif w == 7 and a:
            self.op('action', o, n=self.name(a), v=self.pick(['HELP', 'VERSION', 'APPEND', 'STORE_TRUE'] if a.pos else ['HELP', 'VERSION']))
            if not a.pos:
                act = self.ops[-1]['v']
                if not any(b is not a and b.action == act for b in args):
                    a.define(action=act)
        elif w == 8:
            op = self.pick(['flag', 'action', 'nargs', 'defaults', 'help', 'metavar', 'required', 'get', 'copy'])
            n = self.pick(['--none', '-q', '', 'nope', '--Aa'])
            v = {'flag': '-q', 'action': 'APPEND', 'nargs': 2, 'defaults': ['x'], 'help': 'x', 'metavar': 'x',
                 'required': True}.get(op)
            self.op(op, o, n=n, **({} if v is None else {'v': v}))

    def remove(self, o):
        args = self.objs[o]
        if not args:
            return
        a = self.pick(args)
        l = self.r.sample(a.names, self.r.randint(1, len(a.names)))
        if self.r.random() < 0.3:
            b = self.pick(args)
            l = l + [x for x in b.names if x not in l][:self.r.randint(0, 2)]
        if self.r.random() < 0.1:
            l = l + [l[0]]
        self.op('remove', o, names=l, form=self.form(len(l)))
        for b in list(args):
            b.names = [n for n in b.names if n not in l]
            if not b.names:
                args.remove(b)

    def history_step(self, o):
        w = self.r.random()
        args = self.objs[o]
        if w < 0.25:
            self.define_new(o)
        elif w < 0.40:
            self.remove(o)
        elif w < 0.62:
            self.refused(o)
        elif w < 0.68 and self.hit('p_clear'):
            self.clear(o)
        elif w < 0.90 and args:
            self.redefine(o, self.pick(args))
        elif args:
            self.op('get', o, n=self.name(self.pick(args)))
        if self.hit('p_obs_def'):
            self.obs(o)
        if self.hit('p_usage') and self.r.random() < 0.3:
            self.op('usage', o)

    def clear(self, o):
        self.op(self.pick(['clear', 'clear', 'new']), o)
        self.objs[o] = []
        self.alt[o] = False
        if self.r.random() < 0.5:
            self.obs(o)
        if self.hit('p_usage') and self.r.random() < 0.5:
            self.op('usage', o)
        self.exits(o)

    # -- command lines
    def value(self, a=None):
        if self.p['values'] is not None and self.r.random() < 0.8:
            return self.pick(self.p['values'])
        if self.said and self.hit('p_echo'):
            return self.pick(self.said)
        v = a.valid if a is not None else None
        if v is not None and self.r.random() < 0.85:
            if v['k'] in ('number', 'minmax'):
                return self.pick(NUMBERS if self.r.random() < 0.85 else NONNUM)
            if v['k'] == 'choice':
                return self.pick(v['choices'] if v['choices'] and self.r.random() < 0.8 else WORDS)
            if v['k'] == 'path':
                return self.pick(PATHS_OK if self.r.random() < 0.8 else PATHS_BAD)
        if a is not None and ((v or {}).get('k') == 'raise' or a.dest) and self.r.random() < 0.15:
            return 'boom'
        if self.hit('p_lookalike'):
            return self.pick(LOOKALIKES)
        if self.r.random() < 0.05:
            return ''
        if self.hit('p_long_value'):
            return self.pick(['L', 'ab', '9']) * self.r.choice([40, 100, 257])
        if self.hit('p_number'):
            return self.pick(NUMBERS if self.r.random() < 0.7 else NONNUM)
        return self.pick(WORDS)

    def occurrence(self, o, a):
        flag = self.name(a)
        k = a.kind
        short = len(flag) == 2 and flag != '--'
        if k in VALUELESS:
            if short and self.hit('p_cluster'):
                sw = [n[1] for b in self.objs[o] if b.kind in SWITCH for n in b.names if len(n) == 2]
                letters = ''.join(self.pick(sw) for _ in range(self.r.randint(0, 3))) if sw else ''
                t = '-' + letters + flag[1]
                if self.r.random() < 0.05:
                    t += '=x'
                return [t]
            if self.alt[o] and flag.startswith('--') and self.r.random() < 0.4:
                flag = flag[1:]
            return [flag] if self.r.random() > 0.03 else [flag + '=' + self.value(a)]
        pre = ''
        if short and self.hit('p_cluster'):
            sw = [n[1] for b in self.objs[o] if b.kind in SWITCH for n in b.names if len(n) == 2]
            if sw:
                pre = ''.join(self.pick(sw) for _ in range(self.r.randint(1, 3)))
        base = '-' + pre + flag[1] if short else flag
        if self.alt[o] and not short and self.r.random() < 0.4:
            base = flag[1:]
        one = k in ('SIMPLE', 'MULTI', 'INF', 'MULTIINF')
        r = self.r.random()
        if (one and r < 0.30) or (not one and r < 0.03):
            return [base + '=' + self.value(a)]
        if short and ((one and r < 0.5) or (not one and r < 0.05)):
            return [base + self.value(a)]
        if k in ('SIMPLE', 'MULTI'):
            n = 1
        elif k in ('NUM', 'MULTINUM'):
            n = a.nargs
        elif k == 'MULTINUMINF':
            n = a.nargs * self.r.randint(0, 3)
        else:
            n = self.r.randint(0, 4)
        if self.hit('p_wrong_count'):
            n = max(0, n + self.pick([-1, 1, -2]))
        return [base] + [self.value(a) for _ in range(n)]

    def line(self, o):
        args = self.objs[o]
        opts = [a for a in args if not a.pos]
        poss = [a for a in args if a.pos]
        chunks = []
        usable = [a for a in opts if a.kind not in ('HELP', 'VERSION')]
        need = [a for a in args if a.required and self.r.random() < 0.85]
        for a in need:
            if not a.pos and a.kind not in ('HELP', 'VERSION'):
                chunks.append(self.occurrence(o, a))
        for _ in range(self.between('occ')):
            if usable and self.r.random() < 0.62:
                chunks.append(self.occurrence(o, self.pick(usable)))
            elif poss and self.r.random() < 0.7:
                a = self.pick(poss)
                chunks.append([self.value(a)] * 1)
            else:
                chunks.append([self.value()])
        for a in poss:
            if self.r.random() < 0.6 or a in need:
                n = {'POS': 1, 'NUMPOS': a.nargs, 'INFPOS': self.r.randint(1, 3)}.get(a.kind, a.nargs * self.r.randint(1, 2))
                chunks.append([self.value(a) for _ in range(n)])
        self.r.shuffle(chunks)
        toks = [t for c in chunks for t in c]
        for act, key, auto in (('HELP', 'p_help_tok', ['-h', '--help']), ('VERSION', 'p_version_tok', ['--version', '-V'])):
            if self.hit(key):
                have = [a for a in opts if a.kind == act]
                f = self.name(have[0]) if have else self.pick(auto)
                toks.insert(self.r.randint(0, len(toks)), f)
        if self.hit('p_unknown'):
            toks.insert(self.r.randint(0, len(toks)), self.pick(LOOKALIKES + ['--unknown', '-q', '--unknown=1', '-q=1', '-aq']))
        if self.hit('p_special'):
            toks.insert(self.r.randint(0, len(toks)), self.pick(['', '-', '---', '-=', '--=', '=', '-=x', '--=x', '-a=', '--aa=', '-ab=']))
        if self.hit('p_end'):
            toks.insert(self.r.randint(0, len(toks)), '--')
            if self.r.random() < 0.4:
                toks.insert(self.r.randint(0, len(toks)), '--')
        if self.hit('p_mangle') and toks:
            w = self.r.randrange(4)
            i = self.r.randrange(len(toks))
            if w == 0:
                del toks[i]
            elif w == 1:
                toks.insert(i, toks[self.r.randrange(len(toks))])
            elif w == 2:
                toks = toks[:i]
            else:
                j = self.r.randrange(len(toks))
                toks[i], toks[j] = toks[j], toks[i]
        if self.hit('p_wild'):
            for _ in range(self.pick([1, 1, 2, 3])):
                toks = self.wild(toks, [n[1] for a in args for n in a.names if len(n) == 2 and n[0] == '-'])
        prog = self.pick(['prog', './prog', '/bin/prog', 'a/b', '--', '-a', '']) if self.r.random() < 0.15 else 'prog'
        return [prog] + toks

    def wild(self, toks, letters):
        """a small change of the written line itself"""
        r = self.r
        toks = list(toks)
        i = r.randrange(len(toks)) if toks else 0
        w = r.randrange(12)
        if w >= 10 and letters:     # any letters together
            toks.insert(r.randint(0, len(toks)), '-' + ''.join(self.pick(letters) for _ in range(r.randint(2, 6))) + self.pick(['', '', '=x', '=', '=-1', 'Q']))
        elif w <= 2:      # an odd token, also behind a "--"
            toks.insert(r.randint(0, len(toks)), self.pick(['', '', '', '-', '=', ' ', '-=', '--', '-7', '.']))
        elif not toks:
            return toks
        elif w <= 5:    # two tokens in one
            if i + 1 < len(toks):
                toks[i:i + 2] = [toks[i] + self.pick(['', '', '=', '-', '--', '=-', '= ']) + toks[i + 1]]
            else:
                toks[i] += self.pick(['-', '-7', '-x', '=', '=-', '==', '-=', ' ', '--'])
        elif w == 6:    # a byte more
            k = r.randint(0, len(toks[i]))
            toks[i] = toks[i][:k] + self.pick(['-', '-', '=', ' ', 'a', 'v', '0', '\n', '\xe9']) + toks[i][k:]
        elif w == 7:    # a byte less
            if toks[i]:
                k = r.randrange(len(toks[i]))
                toks[i] = toks[i][:k] + toks[i][k + 1:]
        elif w == 8:    # a token in two
            if len(toks[i]) > 1:
                k = r.randint(1, len(toks[i]) - 1)
                toks[i:i + 1] = [toks[i][:k], toks[i][k:]]
        else:           # the line twice
            toks = toks + toks[r.randrange(len(toks)):]
        return toks

    def round(self, o):
        if self.slots and self.r.random() < 0.5:
            for s in sorted(self.slots):
                self.op('reslot', o, slot=s)
        if self.hit('p_toggle'):
            self.modes(o)
        self.op('parse', o, argv=self.line(o))
        self.obs(o)
        if self.hit('p_copy') and self.objs[o]:
            self.op('copy', o, n=self.name(self.pick(self.objs[o])))
        if self.hit('p_between'):
            w = self.r.random()
            if self.hit('p_remove'):
                self.remove(o)
            elif self.hit('p_clear'):
                self.clear(o)
                for _ in range(self.r.randint(0, 2)):
                    self.define_new(o)
            elif self.hit('p_refused'):
                self.refused(o)
            elif w < 0.6 and self.objs[o]:
                self.redefine(o, self.pick(self.objs[o]))
            else:
                self.define_new(o)
            if self.hit('p_obs_def'):
                self.obs(o)
        elif self.hit('p_refused'):
            self.refused(o)
            self.obs(o)


def dumps(sc):
    return json.dumps(sc, ensure_ascii=True, separators=(',', ':'))


def generate(seed, n, prefix='r', **prof):
    out = []
    for i in range(n):
        rng = random.Random('%s/%s/%d' % (seed, prefix, i))
        out.append(Gen(rng, **prof).scenario('%s%d' % (prefix, i)))
    return out


def twins(seed, n, profiles, prefix='twin'):
    """two objects with almost the same definitions and command lines, their
    calls interleaved"""
    out = []
    for i in range(n):
        r = random.Random('%s/%s/%d' % (seed, prefix, i))
        first = Gen(r, **dict(r.choice(profiles), p_dest=0.0, nobj=1)).scenario('')['ops']
        second = []
        for op in first:
            if op['op'] != 'parse':
                if op['op'] in ('obs', 'mode') or r.random() < 0.85:
                    second.append(dict(op, o=1))
            else:
                argv = op['argv'][:1]
                for t in op['argv'][1:]:
                    w = r.random()
                    argv += [t] if w < 0.8 else [] if w < 0.84 else [t, t] if w < 0.87 else [t.lstrip('-')] if w < 0.92 else ['-' + t.lstrip('-')] if w < 0.97 else ['--' + t.lstrip('-')]
                second.append(dict(op, o=1, argv=argv))
            if op['op'] == 'valid':
                second[-1:] = [dict(x, v=dict(x['v'], vid=x['v']['vid'] + 500)) if x['op'] == 'valid' and x['v'].get('vid') else x for x in second[-1:]]
        if r.random() < 0.3:    # the same calls in another order of parses
            ps = [k for k, x in enumerate(second) if x['op'] == 'parse']
            qs = [second[k] for k in ps]
            r.shuffle(qs)
            for k, q in zip(ps, qs):
                second[k] = q
        seqs = [first, second] if r.random() < 0.5 else [second, first]
        ops = []
        while seqs[0] or seqs[1]:
            k = 0 if not seqs[1] else 1 if not seqs[0] else r.randrange(2)
            for _ in range(r.choice([1, 1, 2, 6])):
                if seqs[k]:
                    ops.append(seqs[k].pop(0))
        out.append(dict(id='%s%d' % (prefix, i), nobj=2, ops=ops))
    return out


def reruns(seed, n, profiles, prefix='rerun'):
    """an object with a past of parses and one with the same definitions and no
    past get the same command lines, most of them refused; the parses of either
    come in several orders"""
    out = []
    for i in range(n):
        r = random.Random('%s/%s/%d' % (seed, prefix, i))
        first = Gen(r, **dict(r.choice(profiles), p_exit=0.0, nobj=1, **({'p_number': 0.7} if r.random() < 0.5 else {}))).scenario('')['ops']
        for _ in range(r.choice([0, 1, 2, 4])):     # redefined after the last parse
            n = r.choice([x['n'] for x in first if x.get('n')] + [y for x in first if x['op'] == 'add' for y in x['names']] or ['-x'])
            first.append(r.choice([dict(op='defaults', o=0, n=n, v=[], form='vec'), dict(op='defaults', o=0, n=n, v=[], form='vec'), dict(op='defaults', o=0, n=n, v=['7'], form='vec'),
                                   dict(op='defaults', o=0, n=n, v=['7', '8x'], form='vec'), dict(op='nargs', o=0, n=n, v=r.choice([1, 1, 2])),
                                   dict(op='action', o=0, n=n, v=r.choice(['NONE', 'APPEND', 'INFINITE', 'STORE_TRUE'])), dict(op='required', o=0, n=n, v=r.random() < 0.5)]))
        first = [dict(op='mode', o=0, k=k, v=True) for k in ('hex', 'vex')] + [x for x in first if not (x['op'] == 'mode' and x['k'] in ('hex', 'vex'))]
        lines = [x['argv'] for x in first if x['op'] == 'parse'] or [['prog']]
        names = sorted({x['n'] for x in first if x.get('n')} | {y for x in first if x['op'] == 'add' for y in x['names']})
        second = []
        for op in first:
            if op['op'] in ('parse', 'obs', 'copy', 'usage'):
                continue
            op = dict(op, o=1)
            if op['op'] == 'valid' and op['v'].get('vid'):
                op['v'] = dict(op['v'], vid=op['v']['vid'] + 500)
            second.append(op)
        pool = []
        for _ in range(r.randint(1, 3)):
            l = list(r.choice(lines))
            w = r.randrange(7)
            if w < 3:
                l.insert(r.randint(max(1, len(l) // 2), len(l)), r.choice(['--nope', '-Z', '-v=x', '--nope=1']))
            elif w == 3 and names:
                l.append(r.choice(names))
            elif w == 4 and len(l) > 1:
                l = l[:r.randint(1, len(l) - 1)]
            elif w == 5:
                l = l[:1] + r.choice([[], ['--nope']])
            pool.append(l)
        probes = [x['probe'] for x in first if x['op'] == 'obs']
        probe = max(probes, key=len) if probes else names
        tail = []
        for _ in range(r.randint(2, 4)):
            l = r.choice(pool)
            for o in r.choice([(0, 1), (1, 0), (0, 0), (1, 1)]):
                if r.random() < 0.3 and o == 0:
                    tail.append(dict(op='parse', o=o, argv=r.choice(lines)))
                tail.append(dict(op='parse', o=o, argv=l))
                tail.append(dict(op='obs', o=o, probe=probe))
        out.append(dict(id='%s%d' % (prefix, i), nobj=2, ops=first + second + tail))
    return out


def threads(seed, n, profiles, prefix='thread'):
    """twins that can run in threads: no calls from inside calls, no exit(),
    no user variable or validator of both"""
    out = []
    for sc in twins(seed, n, [dict(p, p_exit=0.0, p_clear=0.0) for p in profiles], prefix):
        pre = [dict(op='mode', o=o, k=k, v=True) for o in (0, 1) for k in ('hex', 'vex')]
        ops = [x for x in sc['ops'] if not (x['op'] == 'mode' and x['k'] in ('hex', 'vex')) and x['op'] not in ('clear', 'new', 'delete')
               and 'nest' not in x and 'nest' not in (x['v'] if isinstance(x.get('v'), dict) else {})]
        out.append(dict(sc, ops=pre + ops))
    return out


def roles(seed, n, prefix='role'):
    """two or three objects whose definitions and command lines come from the
    same few words: what names an option in one is a value in another, the kinds
    behind a name differ, and the parses come in every order"""
    out = []
    for i in range(n):
        r = random.Random('%s/%s/%d' % (seed, prefix, i))
        nobj = r.choice([2, 2, 2, 3])
        words = r.sample(['x', 'y', 'ab', 'n', '5'], 3)
        ops, seqs = [], []
        kinds = r.sample(sorted(KIND_DEFS), 4)
        for o in range(nobj):
            seq = [dict(op='mode', o=o, k='hex', v=True), dict(op='mode', o=o, k='vex', v=True)]
            if r.random() < 0.2:
                seq.append(dict(op='mode', o=o, k='strict', v=True))
            if r.random() < 0.3:
                seq.append(dict(op='mode', o=o, k='alt', v=True))
            probe = []
            for w in words:
                if r.random() < 0.25:
                    continue
                name = w if r.random() < 0.15 else ('-' + w if len(w) == 1 else '--' + w)
                kind = r.choice([k for k in kinds + ['INF', 'BOOL'] if KIND_DEFS[k][0][0] == (name[0] != '-')] or ['INFPOS' if name[0] != '-' else 'INF'])
                if kind in ('HELP', 'VERSION') and r.random() < 0.7:
                    kind = 'BOOL'
                probe.append(name)
                seq.append(dict(op='add', o=o, names=[name], form='vec'))
                _, action, nargs = r.choice(KIND_DEFS[kind])
                if action is not None:
                    seq.append(dict(op='action', o=o, n=name, v=action))
                if nargs is not None:
                    seq.append(dict(op='nargs', o=o, n=name, v=nargs))
            for _ in range(r.randint(1, 3)):
                argv = ['prog']
                for _ in range(r.randint(1, 6)):
                    w = r.choice(words)
                    t = r.choice([w, w, w, '-' + w, '-' + w, '--' + w, '-' + w + '=' + r.choice(words), '-' + w + r.choice(words), '--'] if r.random() < 0.9 else ['', '-', '=' + w])
                    argv.append(t)
                seq.append(dict(op='parse', o=o, argv=argv))
                seq.append(dict(op='obs', o=o, probe=probe))
            seqs.append(seq)
        while any(seqs):
            k = r.choice([j for j in range(nobj) if seqs[j]])
            for _ in range(r.choice([1, 2, 6, 12])):
                if seqs[k]:
                    ops.append(seqs[k].pop(0))
        out.append(dict(id='%s%d' % (prefix, i), nobj=nobj, ops=ops))
    return out


if __name__ == '__main__':
    import sys
    for sc in generate(sys.argv[1], int(sys.argv[2])):
        print(dumps(sc))

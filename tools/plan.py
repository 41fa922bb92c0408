"""What each property's check compares, generates and model-checks."""
import random

import gen
import histories
import models
import pipeline
import profiles
import texts
import volume

MEM = ['LIVE', 'LEAK', 'SAID']

PARSE = dict(p_texts=0.02, p_width=0.0, p_usage=0.0, p_obs_def=0.0, p_dest=0.0, p_valid=0.0, p_between=0.0, p_forms=0.05,
             p_copy=0.0, parses=(3, 6), p_number=0.1, p_refused=0.0, p_wild=0.35)


def prof(base, **kw):
    d = dict(base)
    d.update(kw)
    return d


# property -> focus labels, list of (random profile name, quick count, thorough count, profile), fixed scenarios
PLAN = {
    'P01': dict(focus=['OUT', 'VAL', 'ACC', 'ADDL'],
                rnd=[('tok', 1600, 30000, prof(PARSE, occ=(0, 8), p_end=0.25)),
                     ('mix', 300, 10000, {})]),
    'P02': dict(focus=['OUT', 'VAL', 'ADDL', 'SLOT'],
                rnd=[('spell', 1600, 30000, prof(PARSE, p_cluster=0.6, p_alt=0.4, p_special=0.15, p_lookalike=0.15, p_pos=0.15)),
                     ('mix', 200, 10000, prof(PARSE, p_dest=0.5, p_alt=0.4))]),
    'P03': dict(focus=['OUT', 'VAL', 'ADDL'],
                rnd=[('arity', 1600, 30000, prof(PARSE, kinds=['NUM', 'INF', 'MULTI', 'MULTIINF', 'MULTINUM', 'MULTINUMINF', 'SIMPLE', 'BOOL'],
                                                p_lookalike=0.3, p_wrong_count=0.25, p_end=0.25, p_alt=0.3, p_unknown=0.15)),
                     ('mix', 200, 10000, {})]),
    'P04': dict(focus=['OUT', 'VAL', 'ADDL'],
                rnd=[('pos', 1600, 30000, prof(PARSE, p_pos=0.75, args=(2, 6), p_required=0.35, p_strict=0.35, p_end=0.3, p_lookalike=0.15)),
                     ('mix', 200, 10000, {})]),
    'P05': dict(focus=['OUT', 'VAL'],
                rnd=[('occ', 1600, 30000, prof(PARSE, p_pos=0.1, args=(1, 3), occ=(2, 8), p_cluster=0.5, p_defaults=0.7, p_alt=0.3)),
                     ('mix', 200, 10000, {})]),
    'P06': dict(focus=['VAL', 'ACC', 'DEF', 'OUT'],
                rnd=[('def', 1600, 30000, prof(PARSE, p_defaults=0.9, occ=(0, 2), parses=(2, 4), p_obs_def=0.3, p_dest=0.1, p_valid=0.1, p_redefine=0.4)),
                     ('mix', 200, 10000, {})]),
    'P07': dict(focus=['OUT', 'WHAT'],
                rnd=[('req', 1600, 30000, prof(PARSE, p_required=0.6, p_defaults=0.5, p_help_tok=0.1, p_version_tok=0.15, p_version_arg=0.4,
                                              p_valid=0.15, p_dest=0.1, p_mangle=0.2)),
                     ('mix', 200, 10000, {})]),
    'P08': dict(focus=['OUT', 'USAGE', 'WHAT', 'VLOG', 'SLOT', 'DEF', 'REG', 'SAID'],
                rnd=[('help', 700, 25000, prof(PARSE, p_help_arg=0.4, p_help_free=0.4, p_version_arg=0.5, p_help_tok=0.35, p_version_tok=0.35, p_exit=0.3,
                                               p_required=0.3, p_valid=0.3, p_dest=0.2, p_texts=0.2, parses=(1, 4), p_cluster=0.4, p_toggle=0.2, p_flagop=0.3)),
                     ('mix', 200, 10000, prof({}, p_help_tok=0.2))]),
    'P09': dict(focus=['OUT', 'WHAT', 'VAL', 'VLOG', 'SLOT'],
                rnd=[('valid', 1600, 30000, prof(PARSE, p_valid=0.85, valid_kinds=['number', 'minmax', 'choice', 'path', 'custom'], args=(1, 4), parses=(2, 5),
                                                p_defaults=0.3, p_dest=0.2, p_number=0.5, p_mangle=0.02)),
                     ('mix', 200, 10000, prof({}, p_valid=0.5))]),
    'P10': dict(focus=['OUT', 'WHAT', 'BASE'],
                rnd=[('bad', 1600, 30000, prof(PARSE, p_unknown=0.35, p_special=0.3, p_wrong_count=0.35, p_mangle=0.3, p_lookalike=0.2, p_strict=0.4,
                                              p_cluster=0.5, p_alt=0.3, p_end=0.2)),
                     ('mix', 200, 10000, prof({}, p_valid=0.3, p_mangle=0.2, p_enum=0.1))]),
    'P11': dict(focus=['OUT', 'WHAT', 'REG'],
                rnd=[('names', 600, 20000, dict(history=14, p_obs_def=0.8, p_usage=0.0, parses=(0, 1), p_flagop=0.4, p_remove=0.5, p_clear=0.3, p_name_eq=0.3,
                                                p_refused=0.3, p_texts=0.0, p_dest=0.3, p_help_arg=0.3)),
                     ('mix', 200, 10000, {})]),
    'P12': dict(focus=['OUT', 'WHAT', 'REG', 'DEF', 'VAL', 'USAGE', 'MODE', 'LIVE'],
                rnd=[('refuse', 500, 20000, dict(history=10, p_obs_def=0.8, p_usage=0.5, p_refused=0.7, p_bad_defaults=0.4, p_help_arg=0.4, p_version_arg=0.4,
                                                 parses=(1, 3), p_between=0.5, p_defaults=0.6, p_valid=0.3)),
                     ('mix', 200, 10000, {})]),
    'P13': dict(focus=['OUT', 'VAL', 'DEF', 'SLOT', 'REG', 'ACC', 'USAGE', 'LEFT'],
                rnd=[('order', 700, 25000, dict(p_redefine=0.7, history=4, p_obs_def=0.4, p_defaults=0.6, p_dest=0.4, p_valid=0.2, p_flagop=0.4, p_required=0.3, p_usage=0.3,
                                                parses=(1, 3), p_copy=0.2, p_help_arg=0.2)),
                     ('mix', 200, 10000, {})]),
    'P14': dict(focus=['SLOT', 'OUT'],
                rnd=[('dest', 1600, 30000, prof(PARSE, p_dest=0.9, p_number=0.7, p_defaults=0.5, p_custom_dest=0.3, p_valid=0.15, p_same_slot=0.2, parses=(1, 4),
                                               p_mangle=0.03, p_unknown=0.01, p_special=0.02)),
                     ('mix', 200, 10000, prof({}, p_dest=0.6))]),
    'P15': dict(focus=['OUT', 'WHAT', 'VAL', 'ADDL', 'SLOT', 'ACC', 'NUM', 'DEF', 'LEFT'],
                rnd=[('again', 500, 20000, dict(parses=(3, 7), p_between=0.15, p_dest=0.3, p_valid=0.25, p_defaults=0.5, p_toggle=0.3, p_usage=0.0, p_texts=0.05,
                                                p_help_tok=0.1, p_required=0.25)),
                     ('mix', 200, 10000, {})]),
    'P16': dict(focus=['OUT', 'REG', 'DEF', 'VAL', 'MODE', 'ADDL', 'USAGE', 'LIVE', 'LEFT'],
                rnd=[('clear', 500, 20000, dict(parses=(2, 5), p_between=0.8, p_clear=1.0, p_remove=0.0, history=3, p_texts=0.5, p_width=0.5, p_usage=0.6,
                                                p_obs_def=0.5, p_valid=0.3, p_alt=0.5, p_strict=0.5, p_exit=0.2, p_help_arg=0.3, p_version_arg=0.3)),
                     ('mix', 200, 10000, {})]),
    'P17': dict(focus=['USAGE'],
                rnd=[('usage', 1600, 30000, dict(args=(0, 7), p_usage=1.0, p_obs_def=0.5, parses=(0, 1), p_texts=0.8, p_width=0.6, p_defaults=0.6, p_required=0.4,
                                                p_default_texts=0.7, history=2, p_flagop=0.4, p_help_tok=0.2, p_help_arg=0.3)),
                     ('mix', 200, 10000, {})]),
    'P18': dict(focus=['LIVE', 'LEAK'],
                rnd=[('own', 700, 25000, dict(history=10, p_valid=0.7, valid_kinds=['number', 'minmax', 'choice', 'custom'], p_dest=0.5, p_copy=0.5, p_remove=0.6,
                                              p_clear=0.5, p_refused=0.2, p_redefine=0.5, p_obs_def=0.3, parses=(0, 2), p_between=0.5, p_texts=0.05)),
                     ('mix', 200, 10000, {})]),
    'P19': dict(focus=['VAL', 'ACC', 'NUM'],
                rnd=[('acc', 1600, 30000, prof(PARSE, p_defaults=0.6, p_valid=0.15, p_number=0.4, p_mangle=0.03, p_obs_def=0.3)),
                     ('mix', 200, 10000, {})]),
    'P20': dict(focus=[x for x in ['OUT', 'WHAT', 'REG', 'DEF', 'VAL', 'ACC', 'NUM', 'MODE', 'ADDL', 'SLOT', 'VLOG', 'USAGE', 'BASE'] + MEM], single=True,
                rnd=[('mix', 600, 20000, {}),
                     ('usage', 150, 6000, dict(args=(0, 7), p_usage=1.0, parses=(0, 1), p_texts=0.8, p_width=0.6)),
                     ('own', 150, 6000, dict(history=10, p_valid=0.7, p_dest=0.5, p_copy=0.5, p_remove=0.6, p_clear=0.5))]),
    'P21': dict(focus=['NUM'],
                rnd=[('num', 1600, 30000, prof(PARSE, p_number=1.0, p_defaults=0.5, p_pos=0.4, kinds=['SIMPLE', 'NUM', 'INF', 'MULTI', 'MULTINUM', 'MULTINUMINF', 'BOOL'],
                                              p_valid=0.15, valid_kinds=['custom'], p_mangle=0.02, p_unknown=0.01, p_special=0.05)),
                     ('mix', 200, 10000, {})]),
    'P22': dict(focus=['OUT', 'VAL', 'ADDL'],
                rnd=[('end', 1600, 30000, prof(PARSE, p_end=0.9, p_lookalike=0.3, p_pos=0.45, p_strict=0.25, p_alt=0.3)),
                     ('mix', 200, 10000, prof({}, p_end=0.5))]),
    'P23': dict(focus=['OUT', 'VAL', 'ADDL', 'MODE'],
                rnd=[('alt', 1600, 30000, prof(PARSE, p_alt=0.8, p_toggle=0.5, p_lookalike=0.3, p_cluster=0.5, p_special=0.1)),
                     ('mix', 200, 10000, prof({}, p_alt=0.8))]),
    'P24': dict(focus=[x for x in ['OUT', 'WHAT', 'REG', 'DEF', 'VAL', 'ACC', 'NUM', 'MODE', 'ADDL', 'SLOT', 'VLOG', 'USAGE'] + MEM],
                rnd=[('two', 350, 15000, dict(nobj=2, args=(1, 3), parses=(1, 3), p_valid=0.3, p_toggle=0.3, p_strict=0.3, p_alt=0.3, p_help_arg=0.3, p_version_arg=0.3, p_texts=0.3, p_usage=0.5)),
                     ('three', 100, 5000, dict(nobj=3, args=(0, 3), parses=(0, 2), history=3, p_clear=0.5))]),
    'P25': dict(focus=['DEF', 'OUT', 'WHAT', 'REG', 'VAL'],
                rnd=[('forms', 700, 25000, dict(p_forms=1.0, p_defaults=0.9, p_obs_def=1.0, p_valid=0.5, valid_kinds=['choice'], history=4, p_remove=0.5, parses=(0, 1))),
                     ('mix', 200, 10000, prof({}, p_forms=1.0))]),
}

K1 = dict(id='K1', nobj=1, ops=[
    dict(op='mode', o=0, k='hex', v=True), dict(op='mode', o=0, k='vex', v=True),
    dict(op='add', o=0, names=['-h'], form='vec'), dict(op='action', o=0, n='-h', v='STORE_TRUE'),
    dict(op='add', o=0, names=['--help'], form='vec'), dict(op='action', o=0, n='--help', v='STORE_TRUE'),
    dict(op='add', o=0, names=['--req'], form='vec'), dict(op='required', o=0, n='--req', v=True),
    dict(op='parse', o=0, argv=['prog']), dict(op='obs', o=0, probe=['--help', '--req', '-h'])])
FIXED = {'P07': [K1]}


def fixed_for(pid):
    return list(FIXED.get(pid, []))

# scenarios with large counts, long texts, calls made from inside calls
VOLUME = len(volume.SHAPES) * 4


def twins_for(pid, tier, seed):
    return gen.twins('%s/%d' % (pid, seed), dict(quick=700, thorough=25000)[tier], [PLAN[p]['rnd'][0][3] for p in sorted(PLAN) if p not in ('P14', 'P24')]) + \
        gen.roles('%s/%d' % (pid, seed), dict(quick=800, thorough=30000)[tier])


def reruns_for(pid, tier, seed):
    return gen.reruns('%s/%d' % (pid, seed), dict(quick=500, thorough=20000)[tier], [PLAN[p]['rnd'][0][3] for p in sorted(PLAN) if p not in ('P17', 'P24', 'P25')])


def threads_for(pid, tier, seed):
    """scenarios whose objects live in a thread each"""
    if pid != 'P24':
        return []
    n = dict(quick=1, thorough=30)[tier]
    s = '%s/%d/threads' % (pid, seed)
    return gen.roles(s, 350 * n, 'trole') + gen.threads(s, 350 * n, [PLAN[p]['rnd'][0][3] for p in sorted(PLAN) if p not in ('P14', 'P24')])


def random_for(pid, tier, seed):
    out = []
    for name, q, t, p in PLAN[pid]['rnd']:
        out += gen.generate('%s/%d' % (pid, seed), q if tier == 'quick' else t, name, **p)
    if PLAN[pid].get('single'):     # what all the other checks do
        for other in sorted(PLAN):
            for name, q, t, p in PLAN[other]['rnd'] if other != pid else []:
                out += gen.generate('%s/%d' % (other, seed), q if tier == 'quick' else t, other + name, **p)
        out += twins_for(pid, tier, seed)
        return out + volume.generate('%s/%d' % (pid, seed), dict(quick=400, thorough=20 * VOLUME)[tier])
    if pid == 'P24':
        out += twins_for(pid, tier, seed)
    if 'LEFT' in PLAN[pid]['focus']:
        out += reruns_for(pid, tier, seed)
    return out + volume.generate('%s/%d' % (pid, seed), dict(quick=VOLUME, thorough=20 * VOLUME)[tier])


# property -> (invariants of MC_Parse, [(family, quick length, thorough length)])
LINES = {
    'P01': (['InvPartition'], [('one_option', 3, 4), ('pairs', 2, 4), ('positionals', 2, 4), ('ends', 2, 4), ('spellings', 2, 3), ('one_of_all', 3, 4), ('arity', 5, 7)]),
    'P02': (['InvEquivalent'], [('spellings', 3, 4), ('exotic', 2, 3), ('alt', 2, 3), ('one_option', 2, 4)]),
    'P03': (['InvArity'], [('one_option', 3, 5), ('pairs', 2, 4), ('alt', 2, 3), ('ends', 2, 4), ('arity', 5, 7)]),
    'P04': (['InvPositionals'], [('positionals', 3, 5), ('positionals3', 3, 6), ('ends', 2, 4)]),
    'P05': (['InvCounts'], [('one_option', 3, 4), ('occurrences', 4, 6), ('positionals', 2, 4), ('pairs', 2, 3), ('arity', 4, 6)]),
    'P06': (['InvDefaults'], [('one_option', 3, 4), ('positionals', 2, 4), ('occurrences', 3, 5), ('required', 1, 2)]),
    'P07': (['InvPrecedence'], [('required', 2, 3), ('positionals', 2, 3), ('helps', 1, 2)]),
    'P08': (['InvPrecedence'], [('helps', 3, 4), ('required', 1, 2)]),
    'P09': (['InvAccepted'], [('validators', 2, 3), ('bounds', 3, 4)]),
    'P10': (['InvDefect'], [('bad', 2, 4), ('exotic', 2, 3), ('positionals', 2, 4), ('pairs', 2, 3), ('ends', 2, 3)]),
    'P14': (['InvDelivered'], [('dests', 2, 3), ('conversions', 2, 3)]),
    'P19': (['InvAccessors'], [('one_option', 2, 3), ('positionals', 2, 3), ('occurrences', 3, 4)]),
    'P20': ([], [('one_of_all', 3, 4), ('one_option', 2, 3), ('positionals', 2, 4), ('positionals3', 2, 4), ('ends', 2, 3), ('alt', 2, 3), ('bad', 2, 3), ('helps', 2, 3), ('required', 2, 3),
                 ('validators', 2, 3), ('dests', 2, 3), ('conversions', 2, 2), ('bounds', 2, 3), ('numbers', 1, 1), ('spellings', 2, 3), ('occurrences', 3, 4), ('arity', 4, 5),
                 ('pairs', 2, 3), ('exotic', 2, 3)]),
    'P21': ([], [('numbers', 1, 2)]),
    'P22': (['InvAfterEnd'], [('ends', 3, 5), ('positionals', 2, 4), ('one_option', 2, 3)]),
    'P23': (['InvAlt'], [('alt', 2, 4), ('exotic', 2, 3)]),
}
# most command lines replayed on the implementation
LIMIT = dict(quick=24000, thorough=150000)
# most histories replayed
HLIMIT = dict(quick=7000, thorough=120000)
# random histories over the same calls
WALKS = dict(quick=400, thorough=8000)


def lines_jobs(pid, tier, rng):
    invs, fams = LINES.get(pid, ([], []))
    prs = []
    for name, q, t in fams:
        for p in getattr(profiles, name)(q if tier == 'quick' else t):
            p['fam'] = name
            prs.append(p)
    if not prs:
        return []
    cost = lambda p: sum(len(p['toks']) ** i for i in range(p['len'] + 1))
    shards = [[] for _ in range(pipeline.CORES)]
    load = [0] * len(shards)
    for p in sorted(prs, key=cost, reverse=True):
        i = load.index(min(load))
        shards[i].append(p)
        load[i] += cost(p)
    return [models.Lines('MC_Parse#%d' % i, sh, [INVNAME[x] for x in invs], 99, invs, random.Random('%s/%d' % (rng, i)),
                         LIMIT[tier] * (4 if pid == 'P20' else 1) // len(shards), long=tier != 'quick')
            for i, sh in enumerate(shards) if sh]


INVNAME = dict(InvPartition='P01', InvEquivalent='P02', InvArity='P03', InvPositionals='P04', InvCounts='P05', InvDefaults='P06',
               InvPrecedence='P07', InvAccepted='P09', InvDefect='P10', InvDelivered='P14', InvAccessors='P19', InvAfterEnd='P22', InvAlt='P23')


# property -> (invariants of MC_Hist, [(family, quick length, thorough length)])
HIST = {
    'P01': (['InvLines'], [('built_options', 2, 3), ('built_positionals', 2, 3)]),
    'P02': (['InvLines'], [('built_options', 2, 3)]),
    'P03': (['InvLines'], [('built_options', 2, 3)]),
    'P04': (['InvLines'], [('built_positionals', 3, 4)]),
    'P05': (['InvLines'], [('built_options', 2, 3)]),
    'P06': (['InvLines'], [('built_options', 2, 3), ('built_positionals', 2, 3)]),
    'P07': (['InvLines'], [('built_options', 2, 3), ('built_positionals', 2, 3)]),
    'P10': (['InvLines'], [('built_options', 2, 3), ('built_positionals', 2, 3)]),
    'P19': (['InvLines'], [('built_options', 2, 3), ('built_positionals', 2, 3)]),
    'P22': (['InvLines'], [('built_options', 2, 3), ('built_positionals', 2, 3)]),
    'P08': (['InvEachParse'], [('roles', 4, 6)]),
    'P11': (['InvNames'], [('names', 5, 7), ('namelists', 3, 5)]),
    'P12': (['InvRefused'], [('roles', 4, 6), ('kinds', 4, 12), ('names', 3, 5), ('namelists', 2, 4)]),
    'P13': (['InvDefined', 'InvCommute'], [('commute', 4, 6), ('kinds', 3, 6)]),
    'P15': (['InvIndependent'], [('again', 3, 4)]),
    'P16': ([], [('clears', 3, 4)]),
    'P17': (['InvUsage'], [('usages', 2, 3)]),
    'P18': (['InvOwned'], [('owners', 4, 6)]),
    'P20': ([], [('names', 3, 4), ('roles', 3, 4), ('kinds', 3, 4), ('commute', 3, 4), ('again', 2, 3), ('clears', 2, 3), ('owners', 3, 4), ('usages', 2, 2), ('apart', 3, 3),
                 ('toggles', 3, 5), ('namelists', 2, 4), ('built_options', 2, 3), ('built_positionals', 2, 3)]),
    'P23': (['InvEachParse', 'InvLines'], [('toggles', 5, 7), ('built_options', 2, 3)]),
    'P24': (['InvApart'], [('apart', 4, 5)]),
}


def hist_jobs(pid, tier, rng):
    invs, fams = HIST.get(pid, ([], []))
    prs = []
    for name, q, t in fams:
        prs += getattr(histories, name)(q if tier == 'quick' else t)
    if not prs:
        return []
    shards = [[] for _ in range(pipeline.CORES)]
    load = [0] * len(shards)
    cost = lambda p: len(p['alpha']) ** p['len']
    for p in sorted(prs, key=cost, reverse=True):
        i = load.index(min(load))
        shards[i].append(p)
        load[i] += cost(p)
    return [models.Hist('MC_Hist#%d' % i, sh, [pid], invs, random.Random('%s/h%d' % (rng, i)), int(HLIMIT[tier] * (4 if pid == 'P20' else 1 if invs != ['InvLines'] or pid == 'P04' else 0.4)) // sum(map(bool, shards)), long=tier != 'quick',
                        walks=max(20 if tier == 'quick' else 400, WALKS[tier] // len(prs)))
            for i, sh in enumerate(shards) if sh]


# property -> (invariants of MC_Text, [(family, quick length, thorough length)])
TEXT = {
    'P09': (['InvWhole'], [('whole', 4, 6)]),
    'P17': (['InvWrap'], [('wraps', 6, 9)]),
    'P20': ([], [('numbers', 3, 4), ('wraps', 4, 6), ('whole', 3, 4)]),
    'P21': (['InvNumber'], [('numbers', 5, 6)]),
}
TLIMIT = dict(quick=4000, thorough=60000)


def text_jobs(pid, tier, rng):
    invs, fams = TEXT.get(pid, ([], []))
    return [models.Text('MC_Text#%s%d' % (name, i), [p], [pid], invs, random.Random('%s/t%d' % (rng, i)), TLIMIT[tier], long=tier != 'quick')
            for name, q, t in fams for i, p in enumerate(getattr(texts, name)(q if tier == 'quick' else t))]


def list_jobs(pid, tier, rng):
    if pid not in ('P20', 'P25'):
        return []
    return [models.Lists('MC_List#%d' % i, [p], random.Random('%s/l%d' % (rng, i)), dict(quick=900 if pid == 'P25' else 150, thorough=20000)[tier], long=tier != 'quick')
            for i, p in enumerate(texts.lists(3 if tier == 'quick' or pid == 'P20' else 4))]


def models_for(pid, tier, seed):
    return list_jobs(pid, tier, '%s/%d' % (pid, seed)) + text_jobs(pid, tier, '%s/%d' % (pid, seed)) + lines_jobs(pid, tier, '%s/%d' % (pid, seed)) + hist_jobs(pid, tier, '%s/%d' % (pid, seed))

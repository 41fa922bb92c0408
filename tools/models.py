"""Run the bounded TLA+ models and turn the behaviours they print into scenarios."""
import json
import os
import re
import subprocess
import threading

import gen
import pipeline

LINE = re.compile(r'^<<"@", (\d+), <<([0-9, ]*)>>(?:, "([^"]*)")?>>')


def run_tlc(d, module, constants, invariants, extra='', timeout=1500, long=False, heap='2g', spec=('Init', 'Next'), view=None, props=()):
    """one TLC run in directory d; returns its output"""
    with open(d + '/M.cfg', 'w') as f:
        f.write('INIT %s\nNEXT %s\n' % spec)
        if view:
            f.write('VIEW %s\n' % view)
        if invariants:
            f.write('INVARIANTS\n  ' + '\n  '.join(invariants) + '\n')
        if props:
            f.write('PROPERTIES\n  ' + '\n  '.join(props) + '\n')
        f.write('CONSTANTS\n')
        for k, v in constants.items():
            f.write('  %s = %s\n' % (k, tla(v)))
        f.write(extra)
    p = subprocess.run(pipeline.java(heap, long=long) + ['-metadir', d + '/states', '-config', 'M.cfg', module + '.tla'], cwd=d,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode('utf-8', 'replace')
    if p.returncode or 'Model checking completed. No error has been found.' not in out:
        keep = [l for l in out.splitlines() if not l.startswith('<<"@"')]
        raise pipeline.Failure('model %s: TLC ended with %d\n%s' % (module, p.returncode, '\n'.join([l for l in keep if l.startswith('Error: ')][:2]) + '\n' + '\n'.join(keep)[-6000:]))
    return out


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset, list, tuple)):
        return '{' + ', '.join(tla(x) for x in sorted(v)) + '}'
    raise ValueError(v)


def dump(path, rows):
    with open(path, 'w') as f:
        for r in rows:
            f.write(json.dumps(r, ensure_ascii=True, separators=(',', ':')) + '\n')


def fair(sizes, limit):
    """the largest share per profile that keeps the total within the limit"""
    if limit is None or sum(sizes) <= limit:
        return max(sizes or [0])
    left, cap = limit, 0
    for i, s in enumerate(sorted(sizes)):
        cap = left // (len(sizes) - i)
        if s > cap:
            return cap
        left -= s
    return cap


class Lines(object):
    """MC_Parse over a list of profiles: all command lines of each profile"""

    def __init__(self, name, profiles, check, check_len, invs, rng, limit=None, per=25, long=False):
        self.name, self.profiles, self.check, self.check_len = name, profiles, check, check_len
        self.invs, self.rng, self.limit, self.per, self.long = invs, rng, limit, per, long

    def run(self, d):
        pipeline.copy_spec(d)
        dump(d + '/p.ndjson', self.profiles)
        out = run_tlc(d, 'MC_Parse', dict(ProfileFile='p.ndjson', Check=self.check, CheckLen=self.check_len),
                      ['Emit'] + self.invs, long=self.long)
        gen, dist = pipeline.tlc_stats(out)
        lines = {}
        outcome = {}
        n = 0
        for l in out.splitlines():
            m = LINE.match(l)
            if m:
                n += 1
                idx = [int(x) for x in m.group(2).split(',')] if m.group(2) else []
                lines.setdefault(int(m.group(1)), []).append(idx)
                outcome[m.group(3)] = outcome.get(m.group(3), 0) + 1
        if n != dist:
            raise pipeline.Failure('model %s: %d states but %d lines' % (self.name, dist, n))
        cap = fair([len(x) for x in lines.values()], self.limit)
        scen = []
        used = 0
        for p in sorted(lines):
            pr = self.profiles[p - 1]
            ls = lines[p]
            if len(ls) > cap:
                short = [x for x in ls if len(x) < 2]
                rest = [x for x in ls if len(x) >= 2]
                ls = short + self.rng.sample(rest, max(0, min(len(rest), cap - len(short))))
            self.rng.shuffle(ls)
            exits = not pr.get('nice', True)
            per = 1 if exits else self.per
            for k in range(0, len(ls), per):
                ops = list(pr['ops'])
                for idx in ls[k:k + per]:
                    for s in pr.get('slots', []):
                        ops.append(dict(op='reslot', o=0, slot=s))
                    ops.append(dict(op='parse', o=0, argv=['prog'] + [pr['toks'][i - 1] for i in idx]))
                    ops.append(dict(op='obs', o=0, probe=pr['probe']))
                    used += 1
                scen.append(dict(id='%s.%d.%d' % (self.name, p, k), nobj=1, ops=ops))
        return dict(states=gen, distinct=dist, behaviours=n, scenarios=scen,
                    info=dict(outcomes=outcome, profiles=len(self.profiles), replayed=used))


HLINE = re.compile(r'^<<"@", (\d+), <<([0-9, ]*)>>, (\d+), "(\w+)", (TRUE|FALSE)>>')


class Hist(object):
    """MC_Hist over a list of profiles: every call out of every reachable state"""

    def __init__(self, name, profiles, check, invs, rng, limit=None, long=False, walks=0):
        self.name, self.profiles, self.check, self.invs = name, profiles, check, invs
        self.rng, self.limit, self.long, self.walks = rng, limit, long, walks

    def forms(self, op):
        """lists of strings, written in any of the supported ways"""
        if op.get('form') is None:
            return op
        v = op.get('names', op.get('v'))
        return dict(op, form=self.rng.choice(gen.FORMS1 if len(v) == 1 else gen.FORMS))

    def once_more(self, o, prev, given):
        """may a validator be handed over again: never given away, or the same
        argument right after (the model knows more cases)"""
        before = given.get(o['v']['vid'], [])
        return o['v']['vid'] != 0 and before and (not any(x['v']['del'] for x in before + [o])
                                                  or (prev['op'], prev.get('n'), prev['o']) == ('valid', o['n'], o['o'])
                                                  and prev['v']['vid'] == o['v']['vid'] and len({(x['n'], x['o']) for x in before}) == 1)

    def walk(self, pr):
        """a history in which the model enables every call"""
        vids, slots, alive = set(), {o['slot'] for o in pr['init'] if o['op'] == 'dest'}, [True] * pr['nobj']
        vids = {o['v']['vid'] for o in pr['init'] if o['op'] == 'valid'}
        out = []
        given = {}
        for _ in range(self.rng.randint(pr['len'] + 1, pr['len'] + 8)):
            prev = pr['alpha'][out[-1] - 1] if out else None
            ok = [i for i, o in enumerate(pr['alpha'], 1) if alive[o['o']] == (o['op'] != 'new')
                  and not (o['op'] == 'valid' and o['v']['vid'] in vids and not self.once_more(o, prev, given))
                  and not (o['op'] == 'dest' and o['slot'] in slots)]
            if not ok:
                break
            i = self.rng.choice(ok)
            o = pr['alpha'][i - 1]
            if o['op'] == 'valid':
                vids.add(o['v']['vid'])
                given.setdefault(o['v']['vid'], []).append(o)
            if o['op'] == 'dest':
                slots.add(o['slot'])
            if o['op'] in ('destroy', 'new'):
                alive[o['o']] = o['op'] == 'new'
            out.append(i)
        return out

    def run(self, d):
        pipeline.copy_spec(d)
        keys = ('nobj', 'init', 'alpha', 'len', 'deep', 'tail')
        dump(d + '/p.ndjson', [{k: p[k] for k in keys} for p in self.profiles])
        out = run_tlc(d, 'MC_Hist', dict(ProfileFile='p.ndjson', Check=self.check), self.invs, long=self.long,
                      view='View', props=['Transitions'])
        tot, dist = pipeline.tlc_stats(out)
        trans = {}
        outcome = {}
        n = 0
        for l in out.splitlines():
            m = HLINE.match(l)
            if m:
                n += 1
                h = tuple(int(x) for x in m.group(2).split(',')) if m.group(2) else ()
                trans.setdefault((int(m.group(1)), h), []).append((int(m.group(3)), m.group(4), m.group(5) == 'TRUE'))
                outcome[m.group(4)] = outcome.get(m.group(4), 0) + 1
        if n != tot - len(self.profiles):
            raise pipeline.Failure('model %s: %d states but %d transitions' % (self.name, tot, n))
        todo = []   # (profile, path, calls at the end, more than one)
        for (p, h), ts in sorted(trans.items()):
            pr = self.profiles[p - 1]
            if pr['deep']:
                if len(h) + 1 == pr['len']:
                    todo += [(p, h, [i], True) for i, k, same in ts]
                else:
                    todo += [(p, h, [i], True) for i, k, same in ts if k == 'exit']
                continue
            loops = [i for i, k, same in ts if same and k != 'exit']
            self.rng.shuffle(loops)
            if loops:
                todo.append((p, h, loops, False))
            todo += [(p, h, [i], False) for i, k, same in ts if not same or k == 'exit']
        used = sum(len(x[2]) for x in todo)
        by = {}
        for x in todo:
            by.setdefault(x[0], []).append(x)
        cap = fair([len(x) for x in by.values()], self.limit)
        todo = [x for p in sorted(by) for x in (by[p] if len(by[p]) <= cap else self.rng.sample(by[p], cap))]
        # longer histories over the same calls, chosen at random
        for p in sorted(by):
            todo += [(p, tuple(self.walk(self.profiles[p - 1])), [], None) for _ in range(self.walks)]
        scen = []
        for k, (p, h, end, every) in enumerate(todo):
            pr = self.profiles[p - 1]
            ops = [self.forms(o) for o in pr['init']]
            look = [dict(op='obs', o=o, probe=pr['probe']) for o in range(pr['nobj'])]
            if pr.get('usage', True):
                look += [dict(op='usage', o=o) for o in range(pr['nobj'])]
            alive = [True] * pr['nobj']

            def see(some):
                return [dict(x) for x in some if alive[x['o']]]

            def step(i):
                op = self.forms(pr['alpha'][i - 1])
                if op['op'] in ('destroy', 'new'):
                    alive[op['o']] = op['op'] == 'new'
                ops.append(op)
            for i in h:
                step(i)
                if every or (every is None and self.rng.random() < 0.3):
                    ops.extend(see(look))
            for i in end:
                step(i)
                if every or self.rng.random() < 0.3:
                    ops.extend(see(look))
            if not every:
                ops.extend(see(look))
            for t in pr.get('tail', []):
                if alive[t['o']]:
                    ops.append(dict(t))
                    if pr.get('each') and t['op'] == 'parse':
                        ops.append(dict(look[t['o']]))
            if pr.get('tail'):
                ops.extend(see(look[:pr['nobj']]))
            scen.append(dict(id='%s.%d.%d' % (self.name, p, k), nobj=pr['nobj'], ops=ops))
        return dict(states=tot, distinct=dist, behaviours=n, scenarios=scen,
                    info=dict(outcomes=outcome, profiles=len(self.profiles), transitions_replayed=sum(len(x[2]) for x in todo)))


class Text(object):
    """MC_Text: all texts over an alphabet; scenarios are made by the profile's
    kind: numbers (values of an infinite positional) or wrapped texts"""

    def __init__(self, name, profiles, check, invs, rng, limit=None, long=False):
        self.name, self.profiles, self.check, self.invs = name, profiles, check, invs
        self.rng, self.limit, self.long = rng, limit, long

    def run(self, d):
        pipeline.copy_spec(d)
        dump(d + '/p.ndjson', [{k: p[k] for k in ('chars', 'len', 'widths')} for p in self.profiles])
        out = run_tlc(d, 'MC_Text', dict(ProfileFile='p.ndjson', Check=self.check), ['Emit'] + self.invs, long=self.long)
        tot, dist = pipeline.tlc_stats(out)
        texts = {}
        n = 0
        for l in out.splitlines():
            m = re.match(r'^<<"@", (\d+), <<([0-9, ]*)>>>>', l)
            if m:
                n += 1
                pr = self.profiles[int(m.group(1)) - 1]
                texts.setdefault(int(m.group(1)), []).append(''.join(pr['chars'][int(x) - 1] for x in m.group(2).split(',')) if m.group(2) else '')
        if n != dist:
            raise pipeline.Failure('model %s: %d states but %d texts' % (self.name, dist, n))
        scen = []
        used = 0
        for p in sorted(texts):
            pr = self.profiles[p - 1]
            ts = texts[p]
            lim = None if self.limit is None else self.limit // len(self.profiles)
            if lim is not None and len(ts) > lim:
                ts = self.rng.sample(ts, lim)
            used += len(ts)
            for k in range(0, len(ts), pr['per']):
                scen.append(dict(id='%s.%d.%d' % (self.name, p, k), nobj=1, ops=pr['make'](ts[k:k + pr['per']], self.rng)))
        return dict(states=tot, distinct=dist, behaviours=n, scenarios=scen, info=dict(profiles=len(self.profiles), replayed=used))


class Lists(object):
    """MC_List: every way of building a list, used as names, defaults and choices"""

    def __init__(self, name, profiles, rng, limit=None, long=False):
        self.name, self.profiles, self.rng, self.limit, self.long = name, profiles, rng, limit, long

    def run(self, d):
        pipeline.copy_spec(d)
        dump(d + '/p.ndjson', self.profiles)
        out = run_tlc(d, 'MC_List', dict(ProfileFile='p.ndjson'), ['Emit', 'InvList'], long=self.long)
        tot, dist = pipeline.tlc_stats(out)
        todo = []
        n = 0
        for l in out.splitlines():
            m = re.match(r'^<<"@", (\d+), <<([0-9, ]*)>>>>', l)
            if m:
                n += 1
                if m.group(2):
                    pr = self.profiles[int(m.group(1)) - 1]
                    todo.append((int(m.group(1)), [pr['steps'][int(x) - 1] for x in m.group(2).split(',')]))
        if n != dist:
            raise pipeline.Failure('model %s: %d states but %d scripts' % (self.name, dist, n))
        if self.limit is not None and len(todo) > self.limit:
            todo = self.rng.sample(todo, self.limit)
        scen = []
        for k, (p, steps) in enumerate(todo):
            words = []
            for st in steps:
                for x in st.get('l', []) + [st[y] for y in ('x', 'y') if y in st]:
                    if x not in words:
                        words.append(x)
            self.rng.shuffle(words)
            ops = [dict(op='mode', o=0, k='hex', v=True), dict(op='mode', o=0, k='vex', v=True),
                   dict(op='add', o=0, steps=steps), dict(op='obs', o=0, probe=words + ['--zz'])]
            if self.rng.random() < 0.5:
                ops += [dict(op='remove', o=0, steps=steps), dict(op='obs', o=0, probe=words + ['--zz'])]
            ops += [dict(op='add', o=0, names=['--zz'], form='vec'), dict(op='action', o=0, n='--zz', v='INFINITE'),
                    dict(op='defaults', o=0, n='--zz', steps=steps), dict(op='obs', o=0, probe=['--zz']),
                    dict(op='valid', o=0, n='--zz', v=dict({'k': 'choice', 'vid': 1, 'del': True}, steps=steps))]
            for x in words[:4] + ['none']:
                ops += [dict(op='parse', o=0, argv=['prog', '--zz=' + x]), dict(op='obs', o=0, probe=['--zz'])]
            scen.append(dict(id='%s.%d' % (self.name, k), nobj=1, ops=ops))
        return dict(states=tot, distinct=dist, behaviours=n, scenarios=scen, info=dict(profiles=len(self.profiles), replayed=len(todo)))


def run_all(jobs, work, say):
    res = dict(states=0, distinct=0, scenarios=[], models=[])
    if not jobs:
        return res
    os.makedirs(work, exist_ok=True)
    lock = threading.Lock()
    errs = []
    out = {}
    todo = list(enumerate(jobs))

    def one():
        while True:
            with lock:
                if not todo or errs:
                    return
                i, j = todo.pop(0)
            try:
                r = j.run(os.path.join(work, 'm%d' % i))
                with lock:
                    out[i] = r
                say('model', j.name, r['states'], r['distinct'], len(r['scenarios']))
            except Exception as e:   # noqa
                with lock:
                    errs.append(e)
    ts = [threading.Thread(target=one) for _ in range(min(len(jobs), pipeline.CORES))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    groups = {}
    for i in sorted(out):
        r = out[i]
        res['states'] += r['states']
        res['distinct'] += r['distinct']
        res['scenarios'] += r['scenarios']
        g = groups.setdefault(jobs[i].name.split('#')[0], dict(states=0, distinct=0, behaviours=0, scenarios=0))
        for k, v in [('states', r['states']), ('distinct', r['distinct']), ('behaviours', r['behaviours']),
                     ('scenarios', len(r['scenarios']))] + list(r.get('info', {}).items()):
            if isinstance(v, dict):
                t = g.setdefault(k, {})
                for a, b in v.items():
                    t[a] = t.get(a, 0) + b
            else:
                g[k] = g.get(k, 0) + v
    res['models'] = [dict(model=k, **v) for k, v in groups.items()]
    return res

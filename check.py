#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's working tree.
check.py --replay <file> : run one recorded counterexample again.
check.py --setup : build the drivers.

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..".
Any other exit: an error of the machinery."""
import json
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import pipeline          # noqa: E402
import plan              # noqa: E402
import models            # noqa: E402


def sample(sc):
    return json.loads(json.dumps(sc))


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p))


def confirm(exe, rej, work, focus, known):
    """a reject counts only if a run of that scenario alone repeats it"""
    for attempt in range(3):
        r = pipeline.conform(exe, [rej['scenario']], work, focus, known, tag='k%d_' % attempt)
        if r['rejects']:
            return r['rejects'][0]
    return None


def shrink(exe, rej, work, focus, known, budget=45.0):
    """drop calls while some difference remains (batched, best effort)"""
    end = time.time() + budget
    best = rej
    rnd = 0
    while time.time() < end:
        rnd += 1
        ops = best['scenario']['ops']
        ops = ops[:best['at']]
        cands = []
        n = len(ops)
        size = max(1, n // 8)
        spans = [(i, min(n, i + size)) for i in range(0, n, size)]
        if size > 1:
            spans += [(i, i + 1) for i in range(n)]
        seen = set()
        for a, b in spans:
            new = ops[:a] + ops[b:]
            cands.append((new, '%d-%d' % (a, b)))
        for i, o in enumerate(ops):
            if o['op'] == 'parse':
                for j in range(1, len(o['argv'])):
                    o2 = dict(o, argv=o['argv'][:j] + o['argv'][j + 1:])
                    cands.append((ops[:i] + [o2] + ops[i + 1:], 'p%d-%d' % (i, j)))
        scs = []
        for k, (new, tag) in enumerate(cands):
            key = json.dumps(new)
            if key not in seen and new:
                seen.add(key)
                scs.append(dict(best['scenario'], id='m%d' % k, ops=new))
        if not scs:
            break
        r = pipeline.conform(exe, scs, work, focus, known, tag='s%d_' % rnd, maxreject=10000)
        ok = [x for x in r['rejects'] if x['diff'] and set(x['diff']) & set(best['diff'])]
        if not ok:
            break
        best2 = min(ok, key=lambda x: (len(json.dumps(x['scenario']['ops'])), x['id']))
        if len(json.dumps(best2['scenario']['ops'])) >= len(json.dumps(best['scenario']['ops'])):
            break
        best = best2
    return best


def brief(ev):
    return {k: v for k, v in ev.items() if k not in ('ob', 'probe')}


def write_replay(pid, rej, single, focus, threads=False):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    import hashlib
    h = hashlib.sha1(json.dumps(rej['scenario'], sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s.json' % (pid, h))
    at = rej['at']
    with open(p, 'w') as f:
        json.dump(dict(property=pid, single=single, threads=threads, focus=focus, difference=rej['diff'], at=at,
                       scenario=rej['scenario'],
                       calls=[brief(e) for e in rej['trace']['ev'][:at]],
                       observed=rej['trace']['ev'][at - 1], expected=rej['expect']), f, indent=1)
    return p


def write_text(pid, name, text):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.txt' % (pid, name))
    open(p, 'w').write(text)
    return p


def write_evidence(pid, ev, t0):
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def replay(path):
    r = json.load(open(path))
    work = tempfile.mkdtemp(prefix='args_replay_')
    try:
        exe = pipeline.build(False, pipeline.THREADS) if r.get('threads') else pipeline.build(r['single'])
        res = pipeline.conform(exe, [r['scenario']], work, r['focus'], [k['id'] for k in known_findings()['known']])
        if res['rejects']:
            x = res['rejects'][0]
            for e in x['trace']['ev'][:x['at']]:
                print(json.dumps(brief(e)))
            print('observed', json.dumps(x['trace']['ev'][x['at'] - 1]))
            print('expected', json.dumps(x['expect']))
            print('VIOLATION property=%s replay=%s' % (r['property'], path))
            return 1
        print('no difference')
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = plan.PLAN[pid]
    focus = cfg['focus'] + ['CRASH']
    single = cfg.get('single', False)
    kf = known_findings()
    known = [k['id'] for k in kf['known']]
    work = tempfile.mkdtemp(prefix='args_%s_' % pid)
    verbose = os.environ.get('ARGS_VERBOSE')

    def say(*a):
        if verbose:
            print('[%6.1f]' % (time.time() - t0), *a, file=sys.stderr, flush=True)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage={}, wall_s=0, violations=[])
    try:
        box = {}

        def do_build():
            try:
                box['exe'] = pipeline.build(single)
            except Exception as e:      # noqa
                box['err'] = e
        bt = threading.Thread(target=do_build)
        bt.start()
        # model checking and behaviour generation from the specification
        mc = models.run_all(plan.models_for(pid, tier, seed), os.path.join(work, 'mc'), say)
        say('models', mc['states'], 'states', len(mc['scenarios']), 'scenarios')
        scen = plan.fixed_for(pid) + mc['scenarios'] + plan.random_for(pid, tier, seed)
        bt.join()
        if 'err' in box:
            if not single or not isinstance(box['err'], pipeline.Failure):
                raise box['err']
            pipeline.build(False)       # the library can be built: then the header must be usable as well
            path = write_text(pid, 'build', str(box['err']))
            print(str(box['err'])[-1500:])
            print('VIOLATION property=%s replay=%s' % (pid, path))
            ev['violations'] = [dict(replay=os.path.relpath(path, HERE), difference=['BUILD'])]
            write_evidence(pid, ev, t0)
            return 1
        say('built')
        if single:
            # every scenario on both distributions (without sanitizers: many more)
            cmp = pipeline.compare((pipeline.build(False, pipeline.PLAIN), pipeline.build(True, pipeline.PLAIN)), scen, work)
            say('compared', len(scen), 'scenarios', cmp['events'], 'events', len(cmp['differ']), 'differ')
            ev['coverage'].update(scenarios_compared=len(scen), events_compared_with_library=cmp['events'], scenarios_differing=len(cmp['differ']))
            # judged by the specification: those that differ, and a part of the others
            part = cmp['differ'][:1000] + random.Random(seed).sample(scen, min(len(scen), dict(quick=2500, thorough=20000)[tier]))
            part = list({s['id']: s for s in part}.values())
            lib = pipeline.build(False)
            r = pipeline.conform(box['exe'], part, work, focus, known)
            if r['rejects']:        # what the library does as well is no difference
                same = {x['id'] for x in r['rejects']} - {s['id'] for s in cmp['differ']}
                rl = pipeline.conform(lib, [x['scenario'] for x in r['rejects'] if x['id'] in same], work, focus, known) if same else dict(rejects=[])
                both = {(x['id'], x['at']) for x in rl['rejects']}
                ev['coverage']['rejected_for_both'] = len(both)
                r['rejects'] = [x for x in r['rejects'] if (x['id'], x['at']) not in both]
            if not r['rejects'] and cmp['differ']:
                rl = pipeline.conform(lib, cmp['differ'][:1000], work, focus, known)
                if rl['rejects']:   # the library leaves the specification, the header does not
                    r, box['exe'], single = rl, lib, False
        else:
            r = pipeline.conform(box['exe'], scen, work, focus, known)
        thr = plan.threads_for(pid, tier, seed)
        if thr and not r['rejects']:    # each object in a thread of its own: every trace is that of its own calls alone
            exe = pipeline.build(False, pipeline.THREADS)
            try:
                os.makedirs(work + '/t')
                pipeline.run_driver(exe, [], work + '/t')
            except pipeline.Failure as e:       # ThreadSanitizer does not run here
                ev['coverage']['threads_not_run'] = str(e)[:300]
                thr = []
            rt = pipeline.conform(exe, thr, work, focus, known, tag='t')
            ev['coverage'].update(scenarios_in_threads=len(thr), traces_of_threads=rt['traces'])
            for k in ('traces', 'events', 'states', 'distinct', 'desync', 'left'):
                r[k] += rt[k]
            if rt['rejects']:
                r['rejects'], box['exe'], box['threads'] = rt['rejects'], exe, True
        say('conform', r['traces'], 'traces', r['events'], 'events', len(r['rejects']), 'rejects', r['desync'], 'desync', r['left'], 'left')
        confirmed = []
        unrepeated = 0
        for x in sorted(r['rejects'], key=lambda x: (len(json.dumps(x['scenario'])), x['id']))[:5]:
            y = confirm(box['exe'], x, work, focus, known)
            if y:
                confirmed.append(y)
                break
            unrepeated += 1
        parses = sum(1 for s in scen for o in s['ops'] if o['op'] == 'parse')
        c = ev['coverage']
        c.update(states=mc['distinct'] + r['distinct'], transitions=mc['states'] + r['states'],
                 model_states=mc['distinct'], model_transitions=mc['states'],
                 traces_validated_against_impl=r['traces'] - len(r['rejects']),
                 events_compared=r['events'], command_lines_parsed=parses,
                 scenarios_from_models=len(mc['scenarios']), scenarios_random=len(scen) - len(mc['scenarios']),
                 models=mc['models'], compared_labels=focus, rejects=len(r['rejects']), rejects_not_repeated=unrepeated,
                 desync_elsewhere=r['desync'],  left_by_refused_parses_compared=r['left'],
                 samples=[sample(s) for s in (scen[:1] + mc['scenarios'][len(mc['scenarios']) // 2:][:1] + scen[-1:])])
        rc = 0
        for k in kf['known']:
            if k['property'] == pid:
                if any(x['k'] == k['id'] for x in r['known']):
                    print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
                    c.setdefault('known_findings', []).append(k['id'])
        if confirmed:
            x = confirmed[0]
            small = x
            if not os.environ.get('ARGS_NOSHRINK'):
                try:
                    small = shrink(box['exe'], x, work, focus, known)
                except Exception as e:    # noqa
                    say('shrink failed', e)
            path = write_replay(pid, small, single, focus, box.get('threads', False))
            ev['violations'] = [dict(replay=os.path.relpath(path, HERE), difference=small['diff'])]
            for e in small['trace']['ev'][:small['at']]:
                print('  ', json.dumps(brief(e))[:400])
            print('   difference', small['diff'], 'expected', json.dumps(small['expect'])[:600])
            print('VIOLATION property=%s replay=%s' % (pid, path))
            rc = 1
        write_evidence(pid, ev, t0)
        say('done', rc)
        return rc
    finally:
        if not os.environ.get('ARGS_KEEP'):
            shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        if sys.argv[1] == '--setup':      # compile both drivers (also done on demand by every check)
            pipeline.build(False)
            pipeline.build(True)
            pipeline.build(False, pipeline.THREADS)
            sys.exit(0)
        if sys.argv[1] == '--replay':
            sys.exit(replay(sys.argv[2]))
        sys.exit(main(sys.argv[1]))
    except SystemExit:
        raise
    except BaseException:     # noqa
        traceback.print_exc()
        sys.exit(2)

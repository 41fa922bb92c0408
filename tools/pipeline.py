"""Build the driver from /repo's working tree, run scenarios on it, and let TLC
check the recorded traces against the specification."""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ARGS_REPO', '/repo')
SPEC = os.environ.get('ARGS_SPEC', os.path.join(VERIF, 'spec'))
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
TLA = '/opt/veriftools/tla'
CP = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'
CORES = int(os.environ.get('ARGS_JOBS', '8'))
FLAGS = ['-std=c++17', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
         '-fno-omit-frame-pointer']
PLAIN = ['-std=c++17', '-O1', '-g0']
THREADS = ['-std=c++17', '-O1', '-g1', '-fsanitize=thread', '-D_GLIBCXX_ASSERTIONS', '-DDRIVER_THREADS', '-pthread']
UNITS = ['driver', 'slots_text', 'slots_int', 'slots_int2', 'slots_float']
LABELS = ['OUT', 'WHAT', 'REG', 'DEF', 'VAL', 'ACC', 'NUM', 'MODE', 'ADDL', 'SLOT', 'LIVE', 'VLOG', 'USAGE', 'LEAK', 'BASE', 'SAID', 'LEFT', 'CRASH']


class Failure(Exception):
    """an error of the machinery, never a verdict"""


# ---------------------------------------------------------------- build
def _files(top, pats):
    out = []
    for root, dirs, files in os.walk(top):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(pats):
                out.append(os.path.join(root, f))
    return out


def build(single=False, flags=FLAGS):
    """path of the driver built from the current tree (cached by content)"""
    if single:
        inc = os.path.join(REPO, 'single_include')
        libs = []
        dep = _files(os.path.join(inc, 'blet'), ('.h', '.hpp', '.ipp', '.inl'))
    else:
        inc = os.path.join(REPO, 'include')
        libs = sorted(_files(os.path.join(REPO, 'src'), ('.cpp', '.cc', '.cxx')))
        dep = libs + _files(inc, ('',)) + _files(os.path.join(REPO, 'src'), ('.h', '.hpp', '.ipp'))
    mine = sorted(glob.glob(HARNESS + '/*'))
    h = hashlib.sha256(repr((single, flags)).encode())
    for f in dep + mine:
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    d = os.path.join(BUILD, h.hexdigest()[:20])
    exe = os.path.join(d, 'driver')
    if os.path.exists(exe):
        return exe
    tmp = d + '.%d' % os.getpid()
    os.makedirs(tmp)
    procs = []
    try:
        objs = []
        jobs = [(os.path.join(HARNESS, u + '.cpp'), u + '.o') for u in UNITS]
        jobs += [(s, 'lib%d.o' % i) for i, s in enumerate(libs)]
        for src, obj in jobs:
            o = os.path.join(tmp, obj)
            objs.append(o)
            procs.append((src, subprocess.Popen(['g++'] + flags + ['-I' + inc, '-I' + HARNESS, '-c', src, '-o', o],
                                                stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        for src, p in procs:
            err = p.communicate()[1]
            if p.returncode:
                raise Failure('compilation of %s failed:\n%s' % (src, err.decode('latin-1')[-3000:]))
        p = subprocess.run(['g++'] + [x for x in flags if x.startswith(('-fsanitize', '-pthread'))] + objs + ['-o', os.path.join(tmp, 'driver')],
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if p.returncode:
            raise Failure('link failed:\n' + p.stderr.decode('latin-1')[-3000:])
        for o in objs:
            os.unlink(o)
        try:
            os.rename(tmp, d)
        except OSError:
            if not os.path.exists(exe):
                raise
    finally:
        for _, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    _prune()
    return exe


def _prune():
    ds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)), key=os.path.getmtime)
    for d in ds[:-12]:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- TLC
def java(heap='2g', extra=(), long=False):
    """long: worth compiling with C2 (short runs spend more on it than they gain)"""
    return ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=%d' % (4 if long else 1), '-Xss256m', '-Xmx' + heap, '-Dfile.encoding=UTF-8', '-Djava.io.tmpdir=.'] + list(extra) + [
        '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-deadlock', '-workers', '1']


def copy_spec(d):
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(SPEC + '/*'):
        if os.path.isfile(f):
            os.symlink(f, os.path.join(d, os.path.basename(f)))


def tlc_stats(out):
    """(generated, distinct) from TLC's final line"""
    for line in reversed(out.splitlines()):
        if 'states generated' in line and 'distinct' in line and line.strip().endswith('left on queue.'):
            w = line.replace(',', '').split()
            return int(w[0]), int(w[w.index('distinct') - 1])
    return 0, 0


def make_fs(d):
    if os.path.exists(d):
        return
    os.makedirs(d + '/fs_dir/sub')
    open(d + '/fs_file', 'w').write('x')
    open(d + '/fs_dir/inner', 'w').write('x')
    os.symlink('fs_file', d + '/fs_lfile')
    os.symlink('fs_dir', d + '/fs_ldir')
    os.symlink('nowhere', d + '/fs_dangling')
    os.mkfifo(d + '/fs_fifo')


def run_driver(exe, scenarios, d, timeout=600):
    """scenarios: list of JSON lines; returns the trace file.  Looking for uses
    of stack after return makes everything four times slower: every sixth
    scenario does (all of a few, as when a difference is repeated)"""
    make_fs(d + '/fs')
    env = {k: v for k, v in os.environ.items() if not k.startswith(('ASAN_', 'UBSAN_', 'LSAN_', 'TSAN_'))}
    env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66'
    out = d + '/t.ndjson'
    parts = [(1, scenarios)] if len(scenarios) <= 24 else [(1, scenarios[::6]), (0, [x for i, x in enumerate(scenarios) if i % 6])]
    for k, (uar, part) in enumerate(parts):
        t = out if k == 0 else d + '/t2.ndjson'
        with open(d + '/scen', 'w') as f:
            f.write('\n'.join(part) + '\n')
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:quarantine_size_mb=16:detect_stack_use_after_return=%d' % uar
        p = subprocess.run([exe, d + '/scen', t, d + '/fs'], stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        if p.returncode:
            raise Failure('driver failed (%d): %s' % (p.returncode, p.stdout.decode('latin-1')[-2000:]))
        if k:
            with open(out, 'ab') as f, open(t, 'rb') as g:
                shutil.copyfileobj(g, f)
            os.remove(t)
    return out


def tlc_trace(d, focus, known, maxreject=20, timeout=900, heap='2g', long=False):
    with open(d + '/A.cfg', 'w') as f:
        f.write(open(SPEC + '/ArgsTrace.cfg').read().split('CONSTANTS')[0])
        f.write('CONSTANTS\n  TraceFile = "t.ndjson"\n  ResultFile = "r.json"\n  MaxReject = %d\n  Focus = {%s}\n  Known = {%s}\n' % (
            maxreject, ', '.join('"%s"' % x for x in focus), ', '.join('"%s"' % x for x in known)))
    p = subprocess.run(java(heap, long=long) + ['-metadir', d + '/states', '-config', 'A.cfg', 'ArgsTrace.tla'], cwd=d,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode('utf-8', 'replace')
    if p.returncode or not os.path.exists(d + '/r.json'):
        raise Failure('TLC failed on traces in %s (%d):\n%s' % (d, p.returncode, out[-4000:]))
    r = json.load(open(d + '/r.json'))
    r['states'], r['distinct'] = tlc_stats(out)
    if r['done'] != r['traces']:
        raise Failure('TLC finished %d of %d traces' % (r['done'], r['traces']))
    return r


def _chunks(lines, most=6e6):
    # balanced by size
    total = sum(map(len, lines))
    n = max(1, min(CORES, len(lines)))
    while total / n > most:
        n += CORES
    chunks = [[] for _ in range(n)]
    for j, i in enumerate(sorted(range(len(lines)), key=lambda i: -len(lines[i]))):
        k = j % (2 * n)
        chunks[k if k < n else 2 * n - 1 - k].append(lines[i])
    return [c for c in chunks if c]


def _lines(scenarios):
    return [s if isinstance(s, str) else json.dumps(s, ensure_ascii=True, separators=(',', ':')) for s in scenarios]


def compare(exes, scenarios, work, tag='x'):
    """run the scenarios on two drivers: (number of calls, the scenarios whose
    recorded traces are not the same)"""
    todo = list(enumerate(_chunks(_lines(scenarios), 2e6)))
    res = dict(events=0, bytes=0, differ=[])
    errs = []
    lock = threading.Lock()

    def work_one():
        while True:
            with lock:
                if not todo or errs:
                    return
                i, c = todo.pop(0)
            d = os.path.join(work, '%s%d' % (tag, i))
            try:
                got = []
                for k, exe in enumerate(exes):
                    os.makedirs('%s_%d' % (d, k))
                    got.append({})
                    for l in open(run_driver(exe, c, '%s_%d' % (d, k)), 'rb'):
                        got[k][l[:60].split(b',', 1)[0]] = l
                bad = []
                for l in c:
                    key = l[:60].split(',', 1)[0].encode()
                    a, b = got[0].get(key), got[1].get(key)
                    if a is None or a != b:
                        bad.append(json.loads(l))
                with lock:
                    res['events'] += sum(l.count(b'{"op":') for l in got[1].values())
                    res['bytes'] += sum(map(len, got[1].values()))
                    res['differ'] += bad
            except Exception as e:      # noqa
                with lock:
                    errs.append(e)
            finally:
                for k in range(len(exes)):
                    shutil.rmtree('%s_%d' % (d, k), ignore_errors=True)
    ts = [threading.Thread(target=work_one) for _ in range(CORES)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res


def conform(exe, scenarios, work, focus, known, tag='c', maxreject=20):
    """run + check a list of scenario dicts in parallel.  Returns totals and
    rejects, each with its scenario and recorded events."""
    chunks = _chunks(_lines(scenarios))
    res = dict(traces=0, events=0, states=0, distinct=0, rejects=[], known=[], desync=0, left=0)
    errs = []
    lock = threading.Lock()
    todo = list(enumerate(chunks))

    def work_one():
        while True:
            with lock:
                if not todo or errs:
                    return
                i, c = todo.pop(0)
            d = os.path.join(work, '%s%d' % (tag, i))
            try:
                copy_spec(d)
                run_driver(exe, c, d)
                r = tlc_trace(d, focus, known, maxreject, long=os.path.getsize(d + '/t.ndjson') > 12e6)
                rej = {x['id'] for x in r['rejects']}
                ev = {}
                if rej:
                    for l in open(d + '/t.ndjson'):
                        t = json.loads(l)
                        if t['id'] in rej:
                            ev[t['id']] = t
                    sc = {}
                    for l in c:
                        s = json.loads(l)
                        sc[s['id']] = s
                    for x in r['rejects']:      # "id@k": the trace of the thread of object k
                        x['scenario'] = sc[x['id'] if x['id'] in sc else x['id'].rsplit('@', 1)[0]]
                        x['trace'] = ev[x['id']]
                with lock:
                    res['traces'] += r['done']
                    res['events'] += r['events']
                    res['states'] += r['states']
                    res['distinct'] += r['distinct']
                    res['rejects'] += r['rejects']
                    res['desync'] += r['desync']
                    res['left'] += r['left']
                    res['known'] += r['known']
            except Exception as e:      # noqa
                with lock:
                    errs.append(e)
            finally:
                if not os.environ.get('ARGS_KEEP'):
                    shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work_one) for _ in range(min(CORES, len(chunks)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res

#!/usr/bin/env python3
"""check.py PROP [quick|thorough]    run one property's check
check.py replay FILE                 run a replay file again
check.py build                       build only

Seeded search over simulated runs: workers (`dst batch`) generate and execute
cases, this driver hands out the seeds, minimises failures and writes evidence.
"""
import json, os, random, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(ROOT, 'target')
DST = os.path.join(TARGET, 'debug', 'dst')
# the crate built without its feature "threads" (thorough tier of the scans and the command)
PLAIN = os.path.join(TARGET, 'plain')
REPLAYS = os.path.join(ROOT, 'replays')
NPROC = int(os.environ.get('DST_WORKERS', 0)) or max(1, min(8, os.cpu_count() or 1))

# property: quick runs (all workers together); the time cap is the same for all
QUICK = {'C01': 60000, 'C02': 50000, 'C03': 80000, 'C04': 80000, 'C05': 50000, 'C06': 50000, 'C07': 20000, 'C08': 60000, 'C09': 60000,
         'C10': 150000, 'C11': 100000, 'C12': 300000, 'C13': 100000, 'C14': 120000, 'C15': 100000, 'C16': 200000, 'C17': 200000, 'C18': 200000,
         'C19': 24000, 'C20': 6000, 'C23': 60000, 'C24': 40000}
QUICK_MS = int(os.environ.get('DST_QUICK_MS', '60000'))
THOROUGH_S = int(os.environ.get('DST_THOROUGH_S', '600'))
MINIMISE_S = int(os.environ.get('DST_MINIMISE_S', '60'))

SCAN_REAL = ['/repo dir_signature (scan, writer, threaded_writer, hash, escape, progress)', 'openat', 'futures 0.1', 'futures-cpupool', 'std::sync, std::thread, std::io', 'sha2, blake2, blake3']
SCAN_STUB = ['kernel: file system, readdir, open/stat/read/readlink/write, futex, pthread_create/join (simulated scheduler), clock, getrandom', 'output stream (SimWriter)']
READ_REAL = ['/repo dir_signature (parser, iterator, merge, get_hash, emitter, hash)', 'std::io::BufReader', 'sha2, blake2, blake3']
READ_STUB = ['input and output streams (SimReader, SimWriter)', 'file system under hashed files', 'clock, getrandom']
CLI_REAL = ['/repo src/bin/index.rs compiled as it is, in its own process', 'argparse, env_logger, num_cpus'] + SCAN_REAL
CLI_STUB = SCAN_STUB[:1] + ['standard output and standard error']

RULE = {
    'scan': 'one case = random tree + configuration + directory order, entry-type and read splitting + fault list + changes by other processes + schedule, all from one seed; ',
    'read': 'one case = random entry list encoded by an independent encoder (or damaged bytes) + call history + read fragmentation + faults on the stream, all from one seed; ',
    'cli': 'one case = random tree + command-line options + left-over output file + faults on input, output, standard error or a kill point + schedule, all from one seed; ',
}
NONTRIV = {
    'C01': 'non-trivial: more than five nodes in the file system', 'C02': 'non-trivial: more than five nodes in the file system', 'C03': 'non-trivial: at least one file-system error was delivered to the scan',
    'C04': 'non-trivial: the output failed or took a short or interrupted write', 'C05': 'non-trivial: more than five nodes in the file system', 'C06': 'non-trivial: more than five nodes in the file system',
    'C07': 'non-trivial: the scan ran ahead of the writer at least once', 'C08': 'non-trivial: at least one change by another process was applied during the scan', 'C09': 'non-trivial: at least one change applied, or a reported size that is not the delivered one',
    'C19': 'non-trivial: a fault fired, a root was bad, or hashing threads ran', 'C20': 'non-trivial: the command was killed at least once',
    'C23': 'non-trivial: the file system has symlinks or special files',
}


def group(p):
    return 'scan' if p <= 'C09' or p >= 'C23' else 'cli' if p in ('C19', 'C20') else 'read'


def build(plain=False):
    env = dict(os.environ, CARGO_TARGET_DIR=PLAIN if plain else TARGET, CARGO_NET_OFFLINE='true', RUSTC_WRAPPER=os.path.join(ROOT, 'tools', 'rustc-points'))
    env.pop('RUSTFLAGS', None)
    r = subprocess.run(['cargo', 'build', '--offline', '--locked'] + (['--no-default-features'] if plain else []), cwd=os.path.join(ROOT, 'sim'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 and plain:
        return False
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print('check: the build failed')
        sys.exit(2)
    return True


def use(plain):
    global DST
    DST = os.path.join(PLAIN if plain else TARGET, 'debug', 'dst')


def known_findings(prop):
    ids, demos = {}, []
    p = os.path.join(ROOT, 'known-findings.txt')
    for line in open(p):
        line = line.strip()
        if not line.startswith('known: property=%s ' % prop):
            continue
        parts = line.split(None, 3)
        kv = dict(x.split('=', 1) for x in parts[2].split(';'))
        ids[kv['id']] = parts[3]
        if 'demo' in kv:
            demos.append((kv['demo'], kv['id'], parts[3]))
    return ids, demos


class Runner:
    def __init__(self, tmp):
        self.tmp = tmp
        self.n = 0
        self.env = dict(os.environ, DST_TMP=tmp)
        self.execs = 0

    def execute(self, prop, case, picks=False, timeout=150):
        """one replay in a fresh process; the report, with 'class' if it violates"""
        self.n += 1
        self.execs += 1
        f = os.path.join(self.tmp, 'x%d.json' % (self.n % 16))
        with open(f, 'w') as h:
            json.dump({'prop': prop, 'case': case}, h)
        try:
            r = subprocess.run([DST, 'exec', f] + (['--picks'] if picks else []), env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return {'class': 'hang', 'msg': 'the process never ends'}
        if r.returncode < 0:
            return {'class': 'abort', 'msg': 'the process died of signal %d' % -r.returncode}
        try:
            return json.loads(r.stdout)
        except ValueError:
            return {'harness': 'exit %d: %s' % (r.returncode, r.stderr[-500:].decode('utf-8', 'replace'))}

    def generate(self, prop, seed, idx):
        r = subprocess.run([DST, 'gen', prop, str(seed), str(idx)], stdout=subprocess.PIPE)
        return json.loads(r.stdout)


# ------------------------------------------------------------------ shrinking

def walk(x, path=()):
    yield path, x
    if isinstance(x, dict):
        for k in list(x):
            yield from walk(x[k], path + (k,))
    elif isinstance(x, list):
        for i in range(len(x)):
            yield from walk(x[i], path + (i,))


def get(x, path):
    for k in path:
        x = x[k]
    return x


def put(x, path, v):
    x = json.loads(json.dumps(x))
    y = x
    for k in path[:-1]:
        y = y[k]
    y[path[-1]] = v
    return x


KEEP = {'mode', 't', 'op', 'act', 'n', 'path', 'do', 'p', 'to', 'roots', 'hash', 'seed', 'rseed', 'c', 'errno'}
DROP = {'cfg2', 'clock', 'stalls', 'spur', 'dchunk', 'dt', 'rs', 'ri', 'ws', 'order', 'jumps', 'lat', 'x', 'once', 'progress', 'queue', 'dirsize', 'pflag', 'cpus'}


def shrink(run, prop, case, cls, until):
    """greedy: fewer list elements, fewer optional keys, smaller numbers; the class of the violation stays"""
    def bad(c):
        return time.time() < until and run.execute(prop, c).get('class') == cls
    # the schedule as an explicit list of picks
    s = case.get('sched') or {}
    if s.get('mode') in ('rand', 'pct', 'rr'):
        r = run.execute(prop, case, picks=True)
        if r.get('class') == cls:
            s2 = {k: v for k, v in s.items() if k in ('stalls', 'spur', 'seed', 'fine')}
            s2.update(mode='picks', picks=r.get('picks', []))
            c2 = dict(case, sched=s2)
            if bad(c2):
                case = c2
    changed = True
    while changed and time.time() < until:
        changed = False
        # lists, biggest chunks first
        for path, v in sorted([(p, v) for p, v in walk(case) if isinstance(v, list) and v and not (p and p[-1] == 'roots')], key=lambda x: len(x[0])):
            try:
                cur = get(case, path)
            except (KeyError, IndexError):
                continue
            if not isinstance(cur, list) or (cur and isinstance(cur[0], int) and len(path) and isinstance(path[-1], int)):
                continue  # pairs
            n = max(1, len(cur) // 2)
            while n >= 1 and time.time() < until:
                i = 0
                while i < len(cur) and time.time() < until:
                    nxt = cur[:i] + cur[i + n:]
                    c2 = put(case, path, nxt) if path else nxt
                    if bad(c2):
                        case, cur, changed = c2, nxt, True
                    else:
                        i += n
                n //= 2
        # optional keys
        for path, v in list(walk(case)):
            if path and path[-1] in DROP and time.time() < until:
                try:
                    get(case, path)
                except (KeyError, IndexError):
                    continue
                c2 = json.loads(json.dumps(case))
                del get(c2, path[:-1])[path[-1]]
                if bad(c2):
                    case, changed = c2, True
        # numbers
        for path, v in list(walk(case)):
            if not (path and isinstance(path[-1], str) and path[-1] not in KEEP and type(v) is int and v > 1):
                continue
            try:
                v = get(case, path)
            except (KeyError, IndexError):
                continue
            for w in (0, 1, v // 2, v - 1):
                if type(v) is int and 0 <= w < v and time.time() < until:
                    c2 = put(case, path, w)
                    if bad(c2):
                        case, changed = c2, True
                        break
    return case


# ------------------------------------------------------------------ search

class Total:
    def __init__(self):
        self.t = dict(runs=0, nontrivial=0, multi=0, steps=0, switches=0, sim_ns=0)
        self.faults, self.probes = {}, {}
        self.orders, self.states = set(), set()
        self.known, self.samples = {}, []

    def add(self, j):
        for k in self.t:
            self.t[k] += j.get(k, 0)
        for a, k in ((self.faults, 'faults'), (self.probes, 'probes')):
            for n, v in j.get(k, {}).items():
                a[n] = a.get(n, 0) + v
        self.orders.update(int(x, 16) for x in j.get('orders', []))
        self.states.update(int(x, 16) for x in j.get('states', []))
        for k, v in j.get('known', {}).items():
            e = self.known.setdefault(k, [0, v[1]])
            e[0] += v[0]
        self.samples += j.get('samples', [])


    def merge(self, o):
        for k in self.t:
            self.t[k] += o.t[k]
        for a, b in ((self.faults, o.faults), (self.probes, o.probes)):
            for n, v in b.items():
                a[n] = a.get(n, 0) + v
        self.orders |= o.orders
        self.states |= o.states
        for k, v in o.known.items():
            self.known.setdefault(k, [0, v[1]])[0] += v[0]


class Worker:
    def __init__(self, prop, seed, k, tmp):
        self.prop, self.seed, self.k, self.next = prop, seed, k, k
        self.status = os.path.join(tmp, 'status%d' % k)
        self.out = os.path.join(tmp, 'out%d' % k)
        self.left = 0
        self.p = None
        self.env = dict(os.environ, DST_TMP=tmp)

    def start(self, ms, count):
        self.left = count
        self.h = open(self.out, 'wb')
        self.e = open(self.out + '.err', 'wb')
        self.t0 = time.time()
        self.last = (None, time.time())
        self.p = subprocess.Popen([DST, 'batch', self.prop, '--seed', str(self.seed), '--from', str(self.next), '--step', str(NPROC), '--count', str(count),
                                   '--ms', str(ms), '--status', self.status], stdout=self.h, stderr=self.e, env=self.env)

    def read_status(self):
        try:
            return int(open(self.status).read().strip())
        except (OSError, ValueError):
            return None

    def result(self):
        self.h.close()
        self.e.close()
        try:
            return json.load(open(self.out))
        except ValueError:
            return None


def search(prop, seed, per_worker, deadline, tmp, run):
    """runs cases until the counts or the time are used up or a violation is found"""
    tot = Total()
    found = []
    notes = []
    ws = [Worker(prop, seed, k, tmp) for k in range(NPROC)]
    left = {w.k: per_worker for w in ws}

    def kick(w):
        ms = int((deadline - time.time()) * 1000)
        if ms > 200 and left[w.k] > 0 and not found:
            w.start(min(ms, 60_000), left[w.k])
            return True
        w.p = None
        return False
    for w in ws:
        kick(w)
    bad_exits = 0
    while any(w.p for w in ws):
        time.sleep(0.02)
        for w in ws:
            if not w.p:
                continue
            rc = w.p.poll()
            if rc is None:
                st = w.read_status()
                if st != w.last[0]:
                    w.last = (st, time.time())
                if time.time() - w.last[1] > 200:
                    w.p.kill()
                continue
            j = w.result()
            if j is None:
                # the process died: find out whether the case does that
                st = w.read_status()
                idx = st if st is not None else w.next
                bad_exits += 1
                r = run.execute(prop, run.generate(prop, seed, idx))
                if 'class' in r:
                    found.append(dict(idx=idx, **{'class': r['class'], 'msg': r['msg']}, case=run.generate(prop, seed, idx)))
                else:
                    notes.append('worker ended with %s at %d, not repeatable' % (rc, idx))
                done = (idx - w.next) // NPROC + 1
                left[w.k] -= done
                w.next = idx + NPROC
                if bad_exits > 20:
                    left[w.k] = 0
            else:
                tot.add(j)
                left[w.k] -= j['done']
                w.next = j['next']
                for v in j['viols']:
                    if 'harness' in v:
                        r = run.execute(prop, run.generate(prop, seed, v['idx']))
                        if 'class' in r:
                            found.append(dict(idx=v['idx'], **{'class': r['class'], 'msg': r['msg']}, case=run.generate(prop, seed, v['idx'])))
                        else:
                            notes.append('harness at %d: %s' % (v['idx'], v['harness']))
                            bad_exits += 1
                            if bad_exits > 20:
                                left[w.k] = 0
                    else:
                        found.append(v)
            kick(w)
        if found:
            # what is already running may end within a moment; the rest is stopped
            t = time.time() + 1.0
            while any(w.p and w.p.poll() is None for w in ws) and time.time() < t:
                time.sleep(0.02)
            for w in ws:
                if w.p:
                    if w.p.poll() is None:
                        w.p.kill()
                        w.p.wait()
                    j = w.result()
                    if j:
                        tot.add(j)
                        found += [v for v in j['viols'] if 'class' in v]
                    w.p = None
    return tot, found, notes


def report(prop, seed, v, run, tmp, plain=False):
    """minimise, write the replay, verify it in a fresh process"""
    cls, case = v['class'], v['case']
    first = run.execute(prop, case)
    if first.get('class') != cls:
        # not the class the worker saw (a process of its own has a clean start): take what this case shows
        if 'class' not in first:
            return None
        cls = first['class']
    small = shrink(run, prop, case, cls, time.time() + MINIMISE_S)
    last = run.execute(prop, small)
    again = run.execute(prop, small)
    if last.get('class') != cls or last.get('trace') != again.get('trace'):
        small, last = case, first
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%s-%s-%s.json' % (prop, cls, seed, v['idx']))
    with open(path, 'w') as f:
        json.dump({'prop': prop, 'seed': seed, 'idx': v['idx'], 'plain': plain, 'class': cls, 'msg': last.get('msg'), 'trace': last.get('trace'), 'steps': last.get('steps'), 'faults': last.get('faults'), 'case': small}, f, indent=1)
    return path, cls, last.get('msg')


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    build()
    tmp = tempfile.mkdtemp(prefix='dst-')
    try:
        return check(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seed, t0, tmp):
    run = Runner(tmp)
    ids, demos = known_findings(prop)
    t1 = time.time()
    plain, plain_runs = False, 0
    if tier == 'thorough':
        # other cases than the quick tier, until the time is used up
        sd = seed + 1_000_000
        tot, found, notes = search(prop, sd, 1 << 40, t1 + THOROUGH_S * 0.85, tmp, run)
        if not found and group(prop) != 'read' and build(plain=True):
            # and the crate without threads, with seeds of its own
            use(True)
            plain, sd = True, seed + 2_000_000
            tot2, found, n2 = search(prop, sd, 1 << 40, time.time() + THOROUGH_S * 0.15, tmp, run)
            notes += n2
            plain_runs = tot2.t['runs']
            tot.merge(tot2)
            if not found:
                use(False)
                plain, sd = False, seed + 1_000_000
    else:
        sd = seed
        tot, found, notes = search(prop, seed, (QUICK[prop] + NPROC - 1) // NPROC, t1 + QUICK_MS / 1000, tmp, run)
    search_s = time.time() - t1
    lines = []
    for k, (n, idx) in tot.known.items():
        if k in ids:
            lines.append('KNOWN-FINDING: property=%s %s (seen in %d runs, first seed %d index %d)' % (prop, ids[k], n, sd, idx))
        else:
            found.append({'idx': idx, 'class': k, 'msg': 'not a listed finding', 'case': run.generate(prop, sd, idx)})
    for demo, key, text in demos:
        j = json.load(open(os.path.join(ROOT, demo)))
        r = run.execute(prop, j['case'])
        if key in r.get('known', []):
            if key not in tot.known:
                lines.append('KNOWN-FINDING: property=%s %s (%s)' % (prop, text, demo))
        elif 'class' in r:
            found.append({'idx': 'known', 'class': r['class'], 'msg': r['msg'], 'case': j['case']})
    reports = []
    seen = set()
    for v in sorted(found, key=lambda v: (len(json.dumps(v['case'])))):
        if v['class'] in seen or len(reports) >= 2:
            continue
        seen.add(v['class'])
        if v['class'] in tot.known:
            path = os.path.join(REPLAYS, '%s-%s.json' % (prop, v['class']))
            os.makedirs(REPLAYS, exist_ok=True)
            json.dump({'prop': prop, 'seed': sd, 'idx': v['idx'], 'class': v['class'], 'msg': v['msg'], 'case': v['case']}, open(path, 'w'))
            reports.append((path, v['class'], v['msg']))
            continue
        r = report(prop, sd, v, run, tmp, plain)
        if r:
            reports.append(r)
        else:
            notes.append('seed %s index %s: %s: %s does not show in a process of its own' % (sd, v['idx'], v['class'], v['msg']))
    g = group(prop)
    hours = max(search_s, 0.001) / 3600
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot.t['runs'], 'distinct_nontrivial': len(tot.states),
            'rule': RULE[g] + NONTRIV.get(prop, 'non-trivial: as many entries, calls, fragments or faults as the property needs') + '; distinct by the hash of the whole event trace (thread, call, path of every step)',
            'samples': tot.samples[:6],
            'nontrivial_runs': tot.t['nontrivial'],
            'runs_per_hour': int(tot.t['runs'] / hours), 'seeds_per_hour': int(tot.t['runs'] / hours), 'search_wall_s': round(search_s, 2), 'workers': NPROC,
            'simulated_seconds': round(tot.t['sim_ns'] / 1e9, 3), 'simulated_steps': tot.t['steps'], 'thread_switches': tot.t['switches'],
            'runs_with_several_threads': tot.t['multi'], 'distinct_interleavings': len(tot.orders),
            'distinct_interleavings_measure': 'hash of (thread, step) at every thread switch, over the runs with more than one thread',
            'faults_injected': dict(sorted(tot.faults.items())), 'probes': dict(sorted(tot.probes.items())),
            'real_components': {'scan': SCAN_REAL, 'read': READ_REAL, 'cli': CLI_REAL}[g], 'stub_components': {'scan': SCAN_STUB, 'read': READ_STUB, 'cli': CLI_STUB}[g],
            'seed_used': sd, 'runs_without_the_feature_threads': plain_runs, 'known_findings_seen': {k: v[0] for k, v in tot.known.items()}, 'notes': notes,
        },
        'assumptions': ['the reference model (sim/src/model.rs) transcribes FORMAT.v1.rst', 'the simulated kernel behaves as Linux does for the calls it implements',
                        'threads interleave at system calls, futex operations and allocations and, in a fifth of the runs with threads, between any two basic blocks of the crate, of futures and futures-cpupool; memory is sequentially consistent'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(reports),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for x in notes:
        print('note: ' + x)
    for x in lines:
        print(x)
    print('%s %s: %d runs, %d distinct non-trivial, %.1f s' % (prop, tier, tot.t['runs'], len(tot.states), time.time() - t0))
    for path, cls, msg in reports:
        print('%s: %s: %s' % (prop, cls, msg))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if reports:
        return 1
    if tot.t['runs'] == 0:
        print('check: nothing ran')
        return 2
    if notes:
        print('check: %d runs gave no answer' % len(notes))
        return 2 if len(notes) > 20 else 0
    return 0


def replay(path):
    j = json.load(open(path))
    plain = bool(j.get('plain'))
    build(plain)
    use(plain)
    tmp = tempfile.mkdtemp(prefix='dst-')
    try:
        r = Runner(tmp).execute(j['prop'], j['case'])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(json.dumps(r, indent=1))
    if 'class' in r:
        same = r['class'] == j.get('class') and r.get('trace') == j.get('trace')
        print('the same execution as recorded' if same else 'not the recorded execution (the code differs)')
        print('VIOLATION property=%s replay=%s' % (j['prop'], path))
        return 1
    print('no violation')
    return 0


if __name__ == '__main__':
    if len(sys.argv) < 2 or sys.argv[1] in ('-h', '--help'):
        print(__doc__)
        sys.exit(2)
    if sys.argv[1] == 'build':
        build()
        sys.exit(0)
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(main())

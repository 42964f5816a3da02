#!/usr/bin/env python3
"""check.py PROPERTY            decide one property by seeded simulation (VERIF_SEED, VERIF_TIER)
check.py --setup                build the simulator from /repo's working tree
check.py --replay FILE          execute a replay file and say whether it still fails
check.py --determinism PROPERTY [N]   execute N seeds alone and in batches, compare every hash
Exit 0: held on everything explored. Exit 1: VIOLATION line printed. 3: error of the check itself."""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
WORKERS = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
# executions per property in the quick tier; thorough multiplies
RUNS = {'C01': 24000, 'C02': 40000, 'C03': 30000, 'C04': 28000, 'C05': 30000, 'C06': 20000, 'C07': 20000, 'C08': 16000, 'C09': 14000,
        'C10': 36000, 'C11': 40000, 'C12': 6000, 'C13': 6000, 'C14': 24000, 'C15': 18000, 'C16': 16000, 'C17': 6000}
THOROUGH = 20
LIMIT = {'quick': 420, 'thorough': 3600 * 3}   # seconds of exploration; reached only on a much slower machine
BATCH = 25
HISTORY = ('C07', 'C08')

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'src'), os.path.join(REPO, 'include'), os.path.join(HERE, 'sim')):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.cpp', '.h', '.hpp', '.hh', '.sh', '.cc', '.c', '.inc', '.ipp')):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, base).encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
                    h.update(b'\0')
    return h.hexdigest()[:20]

def build():
    """the simulator for the current working tree, cached by content"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        out = os.path.join(BUILD, tree_hash())
        exe = os.path.join(out, 'sim')
        if not os.path.exists(exe):
            for old in os.listdir(BUILD):           # keep a few trees
                p = os.path.join(BUILD, old)
                if os.path.isdir(p) and re.fullmatch('[0-9a-f]{20}', old) and time.time() - os.path.getmtime(p) > 3600:
                    shutil.rmtree(p, ignore_errors=True)
            r = sh(['sh', os.path.join(HERE, 'sim', 'build.sh'), REPO, out])
            if r.returncode or not os.path.exists(exe):
                sys.stderr.write(r.stderr.decode(errors='replace')[-4000:])
                print('ERROR: the simulator does not build')
                sys.exit(3)
            for f in os.listdir(out):
                if f.endswith('.o'):
                    os.unlink(os.path.join(out, f))
        return exe

class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='stlsim.', dir='/tmp')
        return self.d
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

def env(d):
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'TMPDIR')}
    e.update(SIM_SCRATCH=d, LC_ALL='C')
    return e

# ------------------------------------------------------------------ executing plans
def classify(err, code):
    m = re.search(r'SIMFATAL (\S+) (.*)', err)
    if m:
        return m.group(1), m.group(2)[:2000]
    m = re.search(r'ERROR: AddressSanitizer: ([^\s]+)([^\n]*)', err)
    if m:
        return 'asan:' + m.group(1), (m.group(1) + m.group(2))[:300]
    m = re.search(r'([^\n]*runtime error: ([^\n]*))', err)
    if m:
        c = re.match(r'[^0-9]{0,40}', m.group(2)[:40]).group(0).replace(' ', '-')
        return 'ubsan:' + c, m.group(1)[:500]
    if 'terminate called' in err:
        return 'terminate', err[err.index('terminate called'):][:200]
    if code < 0:
        return 'signal:%d' % -code, err[:300]
    return 'exit:%d' % code, err[:300]

def execute(exe, text, scratch, record=False, timeout=240):
    """execute the plans of a text in one fresh process; -> (hashes, (index, class, message) or None, recorded plan)"""
    f = os.path.join(scratch, 'plan.txt')
    with open(f, 'w') as fh:
        fh.write(text)
    try:
        r = sh([exe, 'exec', f] + (['-r'] if record else []), env=env(scratch), timeout=timeout)
        code, out, err = r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        code, out, err = -9, (e.stdout or b'').decode(errors='replace'), 'no end within %d s' % timeout
    hashes, viol, cur, plan, inplan = [], None, -1, [], False
    for l in out.split('\n'):
        if inplan:
            if l == 'ENDPLAN':
                inplan = False
            else:
                plan.append(l)
        elif l.startswith('START '):
            cur = int(l.split()[1])
        elif l.startswith('HASH '):
            hashes.append(l.split()[2])
        elif l.startswith('VIOL ') and viol is None:
            w = l.split(' ', 2)
            c, _, m = w[2].partition('\t')
            viol = (int(w[1]), c, m)
        elif l == 'PLAN':
            plan, inplan = [], True
    if viol is None and 'DONE' not in out.split('\n'):
        c, m = classify(err, code)
        viol = (cur, c, m)
        hashes.append('crash')
    return hashes, viol, '\n'.join(plan)

def gen(exe, prop, seed, index):
    s = sh([exe, 'seed', str(seed), str(index)]).stdout.decode().strip()
    return sh([exe, 'gen', prop, s]).stdout.decode()

# ------------------------------------------------------------------ minimisation
def ops_of(text):
    l = text.strip('\n').split('\n')
    return l[0], l[1:-1]

def text_of(head, ops):
    return '\n'.join([head] + ops + ['end']) + '\n'

def minimise(exe, text, cls, scratch, prefix='', limit=60):
    t0, tries = time.time(), 0
    head, ops = ops_of(text)
    def fails(o):
        nonlocal tries
        tries += 1
        v = execute(exe, prefix + text_of(head, o), scratch, timeout=60)[1]
        return v is not None and v[1] == cls
    def left():
        return time.time() - t0 < limit
    def ddmin(items, test):
        n = 2
        while len(items) >= 1 and left():
            size = max(1, len(items) // n)
            i, done = 0, False
            while i < len(items) and left():
                cand = items[:i] + items[i + size:]
                if test(cand):
                    items, done = cand, True
                else:
                    i += size
            if size == 1 and not done:
                break
            n = n if done and size > 1 else min(len(items) or 1, n * 2)
        return items
    ops = ddmin(ops, fails)
    # thread schedules: fewer switches
    for i, l in enumerate(ops):
        m = re.search(r'sched="?([0-9:,]+)"?', l)
        if m and left():
            sw = m.group(1).split(',')
            def put(s):
                return ops[:i] + [l[:m.start()] + 'sched="' + (','.join(s) or '0:0') + '"' + l[m.end():]] + ops[i + 1:]
            sw = ddmin(sw, lambda s: fails(put(s)))
            ops = put(sw)
    # attributes and lines of texts
    for i in range(len(ops)):
        for m in list(re.finditer(r' ([a-z_]+)=("(?:[^"\\]|\\.)*"|\S+)', ops[i])):
            if not left() or m.group(1) in ('th', 'sched', 'seed', 'gap') or ops[i].startswith('parse') and '"' in ops[i][:m.start()] and ops[i].count('"', 0, m.start()) % 2:
                continue
            cand = ops[i].replace(m.group(0), '', 1)
            if fails(ops[:i] + [cand] + ops[i + 1:]):
                ops[i] = cand
        m = re.match(r'^(parse \S+ \S+ ")((?:[^"\\]|\\.)*)(".*)$', ops[i])
        if m and left():
            parts = [p + '\\n' for p in m.group(2).split('\\n')]
            parts[-1] = parts[-1][:-2]
            def putp(p):
                return ops[:i] + [m.group(1) + ''.join(p) + m.group(3)] + ops[i + 1:]
            if len(parts) > 1:
                parts = ddmin(parts, lambda p: fails(putp(p)))
                ops = putp(parts)
    ops = ddmin(ops, fails)
    return text_of(head, ops), tries

# ------------------------------------------------------------------ known findings
def known():
    k = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) class=(\S+) plan=(\S+) (.*)', l.strip())
            if m:
                k.append(m.groups())
    return k

# ------------------------------------------------------------------ one check
def check(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    exe = build()
    tb = time.time() - t0
    total = int(os.environ.get('VERIF_RUNS', '0')) or RUNS[prop] * (THOROUGH if tier == 'thorough' else 1)
    print('%s: VERIF_SEED=%d tier=%s, %d runs on %d workers' % (prop, seed, tier, total, WORKERS))
    sys.stdout.flush()
    res = {'runs': 0, 'ops': 0, 'oracles': 0, 'sim': 0.0, 'switches': 0}
    faults, probes, paths, edges, etotal, cand = {}, {}, set(), set(), 0, []
    nontrivial = set()
    allh = hashlib.sha256()
    with Scratch() as sc:
        # the range of seeds is split into slices, so that a time limit cuts all workers alike
        slices = []
        step = max(BATCH, min(500, (total + WORKERS - 1) // WORKERS))
        for b in range(0, total, step):
            slices.append((b, min(step, total - b)))
        procs, nxt, lines, stop = {}, 0, {}, False
        te = time.time()
        while procs or (nxt < len(slices) and not stop):
            while len(procs) < WORKERS and nxt < len(slices) and not stop:
                b, n = slices[nxt]
                d = os.path.join(sc, 'w%d' % nxt)
                os.mkdir(d)
                of = open(os.path.join(d, 'out.txt'), 'wb')
                procs[nxt] = (subprocess.Popen([exe, 'worker', prop, str(seed), str(b), str(n), str(BATCH)], stdout=of, stderr=subprocess.DEVNULL, env=env(d)), of, d)
                nxt += 1
            time.sleep(0.02)
            for k in list(procs):
                p, of, d = procs[k]
                if p.poll() is None:
                    continue
                of.close()
                with open(os.path.join(d, 'out.txt'), errors='replace') as fh:
                    lines[k] = fh.read().split('\n')
                if 'END' not in lines[k][-3:]:
                    print('ERROR: a worker ended early (%s)' % p.returncode)
                    return 3
                if any(l[:2] in ('V ', 'C ') for l in lines[k]):
                    stop = True
                del procs[k]
                shutil.rmtree(d, ignore_errors=True)
            if time.time() - te > LIMIT[tier]:
                stop = True
        texp = time.time() - te
        for k in sorted(lines):
            for l in lines[k]:
                w = l.split(' ')
                if w[0] == 'R':
                    res['runs'] += 1
                    res['ops'] += int(w[4]); res['oracles'] += int(w[5]); res['sim'] += float(w[6]); res['switches'] += int(w[7])
                    paths.add(w[3])
                    if int(w[5]) > 0:
                        nontrivial.add(w[3])
                    allh.update((w[1] + w[2]).encode())
                    for x in w[8:]:
                        if x.startswith('+'):
                            probes[x[1:]] = probes.get(x[1:], 0) + 1
                        elif '=' in x:
                            a, _, b = x.partition('=')
                            faults[a] = faults.get(a, 0) + int(b)
                elif w[0] == 'E':
                    etotal = int(w[1]); edges.update(w[2:])
                elif w[0] in 'VC' and len(w) > 3:
                    c, _, m = l.split(' ', 3)[3].partition('\t')
                    cand.append((int(w[1]), int(w[2]), c, m))
        cand.sort()
        if any(c[2] == 'harness' for c in cand):
            print('ERROR: harness: ' + [c for c in cand if c[2] == 'harness'][0][3][:1500])
            return 3
        # ---- gate: a violation counts when it happens again, twice, in fresh processes
        found, seen, unrepro = [], {}, []
        for idx, b, cls, msg in cand:
            if seen.get(cls, 0) >= 3 or len(found) >= 3 or any(f['cls'] == cls for f in found):
                continue
            seen[cls] = seen.get(cls, 0) + 1
            plan = gen(exe, prop, seed, idx)
            prefix = ''
            r1 = execute(exe, plan, sc, record=True)
            r2 = execute(exe, plan, sc)
            if not (r1[1] and r2[1] and r1[1][1] == r2[1][1] and r1[0] == r2[0]):
                # it needs what the process did before: the whole batch is the replay
                prefix = ''.join(gen(exe, prop, seed, i) for i in range(b, idx))
                r1 = execute(exe, prefix + plan, sc, record=True)
                r2 = execute(exe, prefix + plan, sc)
                if not (r1[1] and r2[1] and r1[1][1] == r2[1][1] and r1[0] == r2[0]):
                    unrepro.append((idx, cls, msg))
                    continue
            cls = r1[1][1]
            if any(f['cls'] == cls for f in found):
                continue
            if r1[2]:
                e = execute(exe, prefix + r1[2] + '\n', sc)
                if e[1] and e[1][1] == cls:
                    plan = r1[2] + '\n'
            mt = prefix + plan
            if prefix:                                    # whole runs first
                runs = [x + 'end\n' for x in prefix.split('end\n') if x.strip()]
                tm = time.time()
                i = 0
                while i < len(runs) and time.time() - tm < 60:
                    c2 = runs[:i] + runs[i + 1:]
                    e = execute(exe, ''.join(c2) + plan, sc)[1]
                    if e and e[1] == cls:
                        runs = c2
                    else:
                        i += 1
                prefix = ''.join(runs)
            if time.time() - t0 > 500:                    # never let the report wait too long
                mini, tries = plan, 0
            else:
                mini, tries = minimise(exe, plan, cls, sc, prefix)
            e1, e2 = execute(exe, prefix + mini, sc), execute(exe, prefix + mini, sc)
            if not (e1[1] and e1[1][1] == cls and e1[0] == e2[0] and e1[1] == e2[1]):
                mini, e1 = plan, execute(exe, prefix + plan, sc)
            os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
            f = os.path.join(HERE, 'evidence', 'replay-%s-%d.plan' % (prop, len(found)))
            with open(f, 'w') as fh:
                fh.write('# property %s seed %d run %d class %s\n# %s\n# expect %s\n' % (prop, seed, idx, cls, e1[1][2].replace('\n', '\\n')[:1500], ' '.join(e1[0])) + prefix + mini)
            found.append({'cls': cls, 'msg': e1[1][2], 'file': f, 'index': idx, 'tries': tries, 'plan': mini})
        # ---- sampled determinism: the same runs in other processes, alone
        deter = {'checked': 0, 'different': []}
        if not cand and res['runs']:
            step = max(1, res['runs'] // (120 if prop in HISTORY else 24))
            ref = {}
            for k in sorted(lines):
                for l in lines[k]:
                    if l.startswith('R '):
                        w = l.split(' ')
                        ref[int(w[1])] = w[2]
            def alone(i):
                with Scratch() as d:
                    return i, execute(exe, gen(exe, prop, seed, i), d)[0]
            with concurrent.futures.ThreadPoolExecutor(WORKERS) as pool:
                for i, h in pool.map(alone, sorted(ref)[::step]):
                    deter['checked'] += 1
                    if h != [ref[i]]:
                        deter['different'].append(i)
        # a run that goes otherwise after other runs in the same process depends on what they did
        if prop in HISTORY:
            for i in deter['different'][:2]:
                b = max(k for k, _ in slices if k <= i)
                b += (i - b) // BATCH * BATCH
                runs, plan = [gen(exe, prop, seed, j) for j in range(b, i)], gen(exe, prop, seed, i)
                def differs(r):
                    return execute(exe, ''.join(r) + plan, sc)[0][-1:] != execute(exe, plan, sc)[0][-1:]
                if not differs(runs) or not differs(runs):
                    continue
                j = 0
                while j < len(runs) and time.time() - t0 < 500:
                    if differs(runs[:j] + runs[j + 1:]):
                        del runs[j]
                    else:
                        j += 1
                f = os.path.join(HERE, 'evidence', 'replay-%s-h%d.plan' % (prop, i))
                os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, 'w') as fh:
                    fh.write('# property %s seed %d run %d class depends-on-history\n# expect-differs the last run gives another history after the others than alone\n' % (prop, seed, i) + ''.join(runs) + plan)
                found.append({'cls': 'depends-on-history', 'msg': 'the last run of the replay gives other results after the others than alone in a process', 'file': f, 'index': i, 'tries': 0, 'plan': plan})
                break
        # ---- findings on record: each has a plan of its own
        for k in known():
            if k[0] == prop:
                v = execute(exe, open(os.path.join(HERE, k[2])).read(), sc)[1]
                if v and re.fullmatch(k[1], v[1]):
                    print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
                elif v:
                    found.append({'cls': v[1], 'msg': v[2], 'file': os.path.join(HERE, k[2]), 'index': -1, 'tries': 0, 'plan': ''})
        sample = []
        for i in (0, 1):
            if total > i:
                p = gen(exe, prop, seed, i)
                sample.append(p if len(p) < 3000 else p[:3000] + '...')
    rc = 0
    new = found
    for f in new:
        print('%s: run %d: %s' % (f['cls'], f['index'], f['msg'][:600]))
        print('minimised in %d executions; replay: python3 %s --replay %s' % (f['tries'], os.path.join(HERE, 'check.py'), f['file']))
        print('VIOLATION property=%s replay=%s' % (prop, f['file']))
        rc = 1
    if rc == 0 and unrepro:
        print('ERROR: not reproducible: %s' % (unrepro[0],))
        rc = 3
    if rc == 0 and deter['different']:
        print('WARNING: runs %s give another history when executed alone' % deter['different'])
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 1), 'violations': len(new),
          'coverage': {
              'evaluations': res['runs'], 'distinct_nontrivial': len(nontrivial),
              'rule': 'one run = one plan generated from one seed by the workload of the property and executed against the real library; non-trivial: at least one oracle was evaluated; distinct: the set of executed edges of the library with logarithmic counts differs',
              'samples': sample,
              'runs_requested': total, 'operations': res['ops'], 'oracle_evaluations': res['oracles'],
              'runs_per_hour': int(res['runs'] / texp * 3600) if texp > 0 else 0, 'seeds_per_hour': int(res['runs'] / texp * 3600) if texp > 0 else 0,
              'exploration_s': round(texp, 1), 'build_s': round(tb, 1),
              'simulated_seconds': round(res['sim'], 1), 'distinct_paths': len(paths), 'thread_switches': res['switches'],
              'faults_fired': dict(sorted(faults.items())), 'probes_runs': dict(sorted(probes.items())),
              'library_edges_covered': len(edges), 'library_edges_total': etotal,
              'determinism_sample': {'runs_repeated_alone_in_fresh_processes': deter['checked'], 'different': len(deter['different'])},
              'history_digest': allh.hexdigest()[:16],
              'real_components': 'all of src/*.cpp of the working tree (parser, scanner, drivers, monitors, robustness, signals, tools), libstdc++ streams',
              'stub_components': 'operator new and malloc failures, file system calls below fstream, input streams, thread scheduler, sample sources and network (simulated)'},
          'assumptions': ['compiled with clang -O1, AddressSanitizer and UndefinedBehaviorSanitizer', 'threads switch only at instrumented edges (basic blocks of the library)']}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d runs, %d distinct non-trivial paths, %d oracle evaluations, %.0f s, %s' % (prop, res['runs'], len(nontrivial), res['oracles'], wall, 'held' if rc == 0 else 'violated' if rc == 1 else 'error'))
    return rc

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        print(build())
        return 0
    if len(a) > 1 and a[0] == '--replay':
        exe = build()
        with Scratch() as sc:
            text = open(a[1]).read()
            if re.search(r'^# expect-differs', text, re.M):
                last = 'run ' + text.split('\nrun ')[-1]
                h1, h2 = execute(exe, text, sc)[0][-1:], execute(exe, last, sc)[0][-1:]
                print('after the others %s, alone %s' % (h1, h2))
                if h1 != h2:
                    print('VIOLATION property=%s replay=%s' % (re.search(r'^# property (\S+)', text, re.M).group(1), a[1]))
                return 1 if h1 != h2 else 0
            h, v, _ = execute(exe, text, sc)
            m = re.search(r'^# expect (.*)$', text, re.M)
            print('hashes ' + ' '.join(h) + (' (as recorded)' if m and m.group(1).split() == h else ''))
            if v:
                print('%s: %s' % (v[1], v[2]))
                mp = re.search(r'^# property (\S+)', text, re.M)
                print('VIOLATION property=%s replay=%s' % (mp.group(1) if mp else '?', a[1]))
                return 1
            print('held')
            return 0
    if len(a) > 1 and a[0] == '--determinism':
        exe, n = build(), int(a[2]) if len(a) > 2 else 200
        with Scratch() as sc:
            outs = []
            for batch in (1, 7, 40):
                r = sh([exe, 'worker', a[1], os.environ.get('VERIF_SEED', '1'), '0', str(n), str(batch)], env=env(sc))
                outs.append([l.split(' ')[:3] for l in r.stdout.decode().split('\n') if l[:2] in ('R ', 'V ', 'C ')])
            same = outs[0] == outs[1] == outs[2]
            print('%s: %d runs, %s' % (a[1], len(outs[0]), 'same histories alone and in batches' if same else 'DIFFERENT'))
            return 0 if same else 3
    if len(a) == 1 and a[0] in RUNS:
        return check(a[0])
    print(__doc__)
    return 2

if __name__ == '__main__':
    sys.exit(main())

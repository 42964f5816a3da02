#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--files RE] [--ops RE] [--sample N] [--seed S] [--frac F] [--jobs J] [--tests]
Sensitivity experiment: plants small mechanical changes into a scratch copy of /repo, runs every profile of the
simulator against each (a fraction F of the quick tier), and writes which properties notice. Not a check."""
import argparse, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('--files', default=r'src/(interval|interval_transducer|robustness|signal|signal_expr|stl_atom|stl_driver|stl_monitor|tools|transducer)\.cpp$')
ap.add_argument('--ops', default='.'); ap.add_argument('--sample', type=int, default=0); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--frac', type=float, default=0.1); ap.add_argument('--jobs', type=int, default=8); ap.add_argument('--lines', default='')
ap.add_argument('--props', default='')
A = ap.parse_args()
REPO = '/repo'
PROPS = A.props.split(',') if A.props else sorted(check.RUNS)
INC = ['-iquote', None]
LIBF = None
def flags(repo):
    s = open(os.path.join(HERE, 'sim', 'build.sh')).read()
    lib = re.search(r'LIBF="([^"]*)"', s).group(1).replace('$R', repo)
    sim = re.search(r'SIMF="([^"]*)"', s).group(1).replace('$INC', '-iquote $R/include').replace('$R', repo)
    link = re.search(r'^clang\+\+ (-fsanitize.*) -o', s, re.M).group(1)
    return lib.split(), sim.split(), link.split()
def strip(text):
    """text with comments, strings and debug blocks blanked (same length)"""
    o = list(text)
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)\'', text, re.S):
        for i in range(m.start(), m.end()):
            if o[i] != '\n': o[i] = ' '
    t = ''.join(o)
    o = list(t)
    for m in re.finditer(r'^[ \t]*#[ \t]*ifdef +_?DEBUG.*?^[ \t]*#[ \t]*endif', t, re.S | re.M):
        for i in range(m.start(), m.end()):
            if o[i] != '\n': o[i] = ' '
    return ''.join(o)
SWAP = [('rel', r'(?<![<>=!-])<(?![<=])(?=\s*[\w(.*-])', '<='), ('rel', r'<=', '<'), ('rel', r'(?<![<>=-])>(?![>=])', '>='), ('rel', r'>=', '>'), ('eq', r'==', '!='), ('eq', r'!=', '=='),
        ('logic', r'&&', '||'), ('logic', r'\|\|', '&&'), ('arith', r'(?<=[\w)\]])\s*\+\s*(?=[\w(])', ' - '), ('arith', r'(?<=[\w)\]])\s*-\s*(?=[\w(])(?!>)', ' + '),
        ('minmax', r'\bmin\b(?=\()', 'max'), ('minmax', r'\bmax\b(?=\()', 'min'), ('minmax', r'\bfmin\b(?=\()', 'fmax'), ('minmax', r'\bfmax\b(?=\()', 'fmin'),
        ('const', r'\bTOP\b', 'BOTTOM'), ('const', r'\bBOTTOM\b', 'TOP'), ('const', r'\btrue\b', 'false'), ('const', r'\bfalse\b', 'true'), ('const', r'(?<![\w.])0\.(?!\d)', '1.'), ('const', r'(?<![\w.])1\.(?!\d)', '0.'),
        ('var', r'\bz_low\b', 'z_up'), ('var', r'\bz_up\b', 'z_low'), ('var', r'\bchildL\b', 'childR'), ('var', r'\bchildR\b', 'childL'), ('var', r'\bstart_time\b', 'end_time'), ('var', r'\bend_time\b', 'start_time'),
        ('var', r'\bbeginTime\b', 'endTime'), ('var', r'\bendTime\b', 'beginTime'), ('var', r'\bfront\b', 'back'), ('var', r'\bback\b', 'front'), ('var', r'\bbegin_str\b', 'end_str'),
        ('cond', r'(?<=\bif )\((?=[^;{]*\)\s*(\{|\n|[a-z]))', '(!'), ('inc', r'\+\+', '')]
def mutants():
    out = []
    fs = []
    for d in ('src', 'include'):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if re.search(A.files, d + '/' + f): fs.append(d + '/' + f)
    for f in fs:
        text = open(os.path.join(REPO, f), errors='surrogateescape', newline='').read()
        code = strip(text)
        for op, rx, to in SWAP:
            if not re.search(A.ops, op): continue
            for m in re.finditer(rx, code):
                l0 = code.rfind('\n', 0, m.start()) + 1; l1 = code.find('\n', m.start())
                line = code[l0:l1]
                if line.lstrip().startswith('#') or 'cout' in line or 'cerr' in line or 'template' in line: continue
                if op == 'cond':
                    # negate the whole condition
                    d, j = 0, m.start()
                    while True:
                        if code[j] == '(': d += 1
                        if code[j] == ')':
                            d -= 1
                            if d == 0: break
                        j += 1
                    new = text[:m.start()] + '(!' + text[m.start():j + 1] + ')' + text[j + 1:]
                else: new = text[:m.start()] + to + text[m.end():]
                out.append((f, text.count('\n', 0, m.start()) + 1, op, '%s -> %s at %d' % (m.group(0).strip(), to, m.start() - l0), new, text))
        if re.search(A.ops, 'del'):
            for m in re.finditer(r'^([ \t]*)([A-Za-z_*(][^;{}\n]*;)[ \t\r]*$', code, re.M):
                s = m.group(2)
                if re.match(r'(return|using|typedef|class|struct|extern|static|#|break|public|case|enum|friend|virtual|inline|explicit|const|bool \w+\(|double \w+\(|void|double get|delete)\b', s) and not s.startswith('delete'): 
                    if not s.startswith('break'): continue
                if re.match(r'(double|int|string|Signal|auto|bool|transducer|map<[^>]*>|vector<[^>]*>|Sample|Sequence|size_t|short|Signal::\w+)\s*[&*]?\s*\w+(\s*,\s*\w+)*\s*(=|;|\()', s): continue
                if 'cout' in s or 'cerr' in s or 'printf' in s: continue
                new = text[:m.start(2)] + ';' + text[m.end(2):]
                out.append((f, text.count('\n', 0, m.start(2)) + 1, 'del', s, new, text))
    if A.lines:
        lo, hi = map(int, A.lines.split('-')); out = [m for m in out if lo <= m[1] <= hi]
    return out
def run1(m, base, k):
    f, line, op, what, new, text = m
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp/mut')
    rec = {'file': f, 'line': line, 'op': op, 'what': what, 'src': text.split('\n')[line - 1].strip()}
    try:
        r = os.path.join(d, 'r'); os.mkdir(r)
        for x in ('src', 'include'): shutil.copytree(os.path.join(REPO, x), os.path.join(r, x))
        with open(os.path.join(r, f), 'w', errors='surrogateescape', newline='') as fh: fh.write(new)
        lib, sim, link = flags(r)
        objs = []
        todo = []
        for s in sorted(os.listdir(os.path.join(r, 'src'))):
            if not s.endswith('.cpp'): continue
            if f.startswith('include/') or f == 'src/' + s: todo.append((lib, os.path.join(r, 'src', s), os.path.join(d, 'lib_' + s[:-4] + '.o')))
            else: objs.append(os.path.join(base, 'lib_' + s[:-4] + '.o'))
        for s in sorted(os.listdir(os.path.join(HERE, 'sim'))):
            if not s.endswith('.cpp'): continue
            if f.startswith('include/') and s != 'faults.cpp': todo.append((sim, os.path.join(HERE, 'sim', s), os.path.join(d, 'sim_' + s[:-4] + '.o')))
            else: objs.append(os.path.join(base, 'sim_' + s[:-4] + '.o'))
        for fl, src, o in todo:
            p = subprocess.run(['clang++'] + fl + ['-c', src, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode: rec['status'] = 'nocompile'; return rec
            objs.append(o)
        exe = os.path.join(d, 'sim')
        p = subprocess.run(['clang++'] + link + ['-o', exe] + objs + ['-lpthread', '-ldl'], stderr=subprocess.PIPE)
        if p.returncode: rec['status'] = 'nolink'; return rec
        for x in os.listdir(d):
            if x.endswith('.o'): os.unlink(os.path.join(d, x))
        sc = os.path.join(d, 'sc'); os.mkdir(sc)
        kills = {}
        for p in PROPS:
            n = int(check.RUNS[p] * A.frac); b = 0
            while b < n and p not in kills:
                c = min(50 if b < 200 else 200, n - b)
                try:
                    q = subprocess.run([exe, 'worker', p, '1', str(b), str(c), '25'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=check.env(sc), timeout=300)
                except subprocess.TimeoutExpired:
                    kills[p] = [b, 'timeout']; break
                for l in q.stdout.decode(errors='replace').split('\n'):
                    if l[:2] in ('V ', 'C '):
                        w = l.split(' ', 3); kills[p] = [int(w[1]), w[3].split('\t')[0], (w[3].split('\t') + [''])[1][:160]]; break
                b += c
        rec['status'] = 'killed' if kills else 'survived'; rec['kills'] = kills
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)
def main():
    ms = mutants(); print(len(ms), 'mutants', file=sys.stderr)
    rnd = random.Random(A.seed)
    if A.sample and A.sample < len(ms): ms = rnd.sample(ms, A.sample)
    else: rnd.shuffle(ms)
    done = set()
    if os.path.exists(A.out):
        for l in open(A.out):
            j = json.loads(l); done.add((j['file'], j['line'], j['op'], j['what']))
    base = '/tmp/mut/base'
    if not os.path.exists(base + '/sim'):
        s = open(os.path.join(HERE, 'sim', 'build.sh')).read()
        subprocess.check_call(['sh', os.path.join(HERE, 'sim', 'build.sh'), REPO, base])
    t0 = time.time(); n = 0
    with ThreadPoolExecutor(A.jobs) as ex, open(A.out, 'a') as of:
        futs = [ex.submit(run1, m, base, i) for i, m in enumerate(ms) if (m[0], m[1], m[2], m[3]) not in done]
        import concurrent.futures as cf
        for f in cf.as_completed(futs):
            rec = f.result(); of.write(json.dumps(rec) + '\n'); of.flush(); n += 1
            if n % 20 == 0: print('%d/%d %.0f s' % (n, len(futs), time.time() - t0), file=sys.stderr)
main()

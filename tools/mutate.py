#!/usr/bin/env python3
"""mutate.py WORKDIR SEED HOURS [FILE...] : mutation testing of the checks, on copies of /repo and /verif.

Picks source lines at random, changes one operator, constant or statement, and runs the quick checks of that file until one
reports it. Mutants that none reports are appended to WORKDIR/survivors.txt to be looked at by hand.
MUTATE in the environment selects other changes: narrow, short (types into smaller ones), static (values of before are kept),
alias (copies become references, sharing or dangling).
A development aid: no check uses it."""
import os, random, re, subprocess, sys, time
work, seed, hours = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
only = sys.argv[4:]
MAP = [
 (r'bland/bland/ndarray_deferred', 'A07 B05'), (r'bland/bland/(ndarray|bland_tensor)', 'A01 A08 A02 A06'), (r'bland/bland/include/bland/stride', 'A01 A02 A04'),
 (r'bland/bland/include/bland/ndarray', 'A01 A08 A02 A06'), (r'cpu/(comparison)', 'A03'), (r'ops/comparison', 'A03'), (r'arithmetic', 'A02'),
 (r'cpu/elementwise|cpu/assignment|device_dispatch', 'A02 A03 A01'), (r'ops/creators', 'A06'), (r'statistical', 'A04 A05'), (r'frequency', 'C07 A02'),
 (r'ops/ops|ops_cpu', 'A01 A02 A06 A04'), (r'config', 'A08 A01'),
 (r'core/(scan|include/core/scan)', 'B02 B05 B03 B01 S02 B06'), (r'core/coarse_channel|core/include/core/coarse', 'B05 B02 D01 S02 B06 C06'), (r'core/cadence|core/include/core/cadence', 'B06 S02 B05 D08'),
 (r'core/event', 'S03 D08'), (r'core/frequency_drift|core/include/core/frequency', 'D01 D03 D02'), (r'core/hit', 'D06 S04 S01'), (r'core/noise', 'C05 D04'), (r'core/include/core/flag|core/flag', 'C04 D02'),
 (r'drift_search/connected', 'D04'), (r'drift_search/event', 'D08'), (r'drift_search/filter', 'D07'), (r'drift_search/hit_search', 'D06 D04 D05'), (r'drift_search/integrate', 'D03 D01 D02'),
 (r'drift_search/kernels/drift', 'D01 D02 D03'), (r'drift_search/kernels/connected', 'D04'), (r'drift_search/kernels/local', 'D05'), (r'drift_search/local', 'D05'), (r'drift_search/protohit', 'D04 D05'), (r'drift_search', 'D01 D04 D05 D06'),
 (r'estimators/noise', 'C05'), (r'estimators/spectral', 'C02'), (r'estimators', 'C05 C02'), (r'file_types/cpnp|file_types/detail', 'S01 S02 S03'), (r'file_types/dat', 'S04'), (r'file_types/events', 'S03'),
 (r'file_types/h5|file_types/include/file_types/h5', 'B01 B03 B04 B02'), (r'file_types/hits', 'S01 S04'), (r'file_types', 'S01 S02 S03 B01'), (r'flaggers/filter', 'C01 C04'), (r'flaggers/magn|flaggers/sigma', 'C03 C04'), (r'flaggers/spectral', 'C02 C04'), (r'flaggers', 'C01 C02 C03 C04'),
 (r'preprocess', 'C06 C07'), (r'bliss/bliss_', 'P01'),
]
def checks(f):
    for r, c in MAP:
        if re.search(r, f): return c.split()
    return None
os.makedirs(work, exist_ok=True)
repo, ver = work + '/repo', work + '/verif'
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(repo): sh(f'git clone -q /repo {repo}; cp -a /repo/bland/external {repo}/bland/ 2>/dev/null')
if not os.path.exists(ver): sh(f'git clone -q /verif {ver}')
env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=work + '/build', PBT_NOSHRINK='1')
files = [f for f in sh(f'git -C {repo} ls-files bland/bland bliss').stdout.split() if re.search(r'\.(c|h)pp$', f) and not re.search(r'tests/|cuda|python|demo|clipp|event_search.cpp$|external', f) or f.endswith('drift_search/event_search.cpp')]
if only: files = [f for f in files if any(o in f for o in only)]
OPS = [(r'(?<![<>\-=!+*/&|])<(?![<=>])(?=[^<>]*$|\s)', '<='), (r'<=', '<'), (r'(?<![\->=<])>(?![>=])\s', '>= '), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r'\+=', '-='), (r'-=', '+='), (r'\+\+', '--'), (r'\b0\b(?![.xf])', '1'), (r'\b1\b(?![.xf])', '0'), (r'\b1\b(?![.xf])', '2'), (r'\b2\b(?![.xf])', '3'),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'std::min', 'std::max'), (r'std::max\b', 'std::min'), (r'\bcontinue;', ';'), (r'\bbreak;', ';'), (r'\|=', '='), (r'& ', '| '), (r'!(?=[a-z(])', ''), (r'std::round', 'std::floor'), (r'std::f?abs', ''),
       (r'\.begin\(\)', '.end()'), (r'\bint64_t\b', 'int32_t'), (r'\bdouble\b', 'float'), (r'^(\s*)([A-Za-z_][\w.\->\[\]:]*(\(.*\)| (\|?=|[+*/-]=) [^;]*);)\s*$', r'\1;'), (r'\bif \(', 'if (true || '), (r'\bif \(', 'if (false && ')]
if os.environ.get('MUTATE') == 'narrow': OPS = [(r'\bdouble\b', 'float'), (r'\bauto (\w+)(\s*)= ', r'float \1\2= '), (r'\bauto (\w+)(\s*)= ', r'int32_t \1\2= ')] # types too small
if os.environ.get('MUTATE') == 'short': OPS = [(r'\b(int64_t|int32_t|uint32_t|uint64_t|size_t|int|long)(?= \w+ *[=;:,)({])', 'int16_t'), (r'\bauto (\w+)(\s*)= ', r'int16_t \1\2= '), (r'\b(int64_t|int32_t|uint32_t|uint64_t|size_t|int|long)(?= \w+ *[=;:,)({])', 'uint8_t')]
if os.environ.get('MUTATE') == 'static': OPS = [(r'^(\s+)((?:const )?(?:auto|std::\w+(?:<.*>)?|int|int32_t|int64_t|float|double|bool|bland::ndarray\w*|hit|event|noise_stats|\w+_\w+) +\w+ *(?:=|\{|\()[^;]*;)', r'\1static \2'), (r'^(\s+)((?:std::\w+<.*>|bland::ndarray) +\w+;)', r'\1static \2')]
if os.environ.get('MUTATE') == 'alias': OPS = [(r'\bauto (\w+)(\s*)=', r'auto &\1\2='), (r'\bauto (\w+)(\s*):', r'auto &\1\2:'), (r'([(,]\s*)((?:std::|bland::|bliss::)?(?:vector<[\w:]+>|map<.*>|list<\w+>|ndarray\w*|coarse_channel|scan|cadence|observation_target|hit|event|shared_ptr<[\w:]+>|string)) (\w+)(?=[,)])', r'\1\2 &\3'), (r'\[(\w+)\](?=\(| \{|\{)', r'[&\1]'), (r'\[=', '[&'), (r'^(\s*)((?:std::|bland::|bliss::)?(?:vector<[\w:]+>|map<.*>|list<\w+>|ndarray\w*|coarse_channel|scan|cadence|observation_target|hit|event|shared_ptr<[\w:]+>)) (\w+) *= ', r'\1\2 &\3 = '), (r'\.copy\(\)|bland::copy\((?=\w+\))', r'')]
rnd = random.Random(seed)
end = time.time() + hours * 3600
n = caught = bad = 0
def lines_of(f):
    out, cuda = [], 0
    for i, l in enumerate(open(repo + '/' + f, errors='replace').read().split('\n')):
        t = l.strip()
        if re.match(r'#if.*(CUDA|__HIP)', t): cuda = 1
        if re.match(r'#(endif|else)', t): cuda = 0
        if cuda or not t or t.startswith(('//', '#', '*', '/*', 'template', 'using', 'namespace')) or re.search(r'fmt::(print|format)|throw|static_assert|\bcase\b.*:', t): continue
        out.append((i, l))
    return out
pool = [(f, i, l, k) for f in files if checks(f) for i, l in lines_of(f) for k, (a, b) in enumerate(OPS) if re.search(a, l.split('//')[0])]
print(len(files), 'files', len(pool), 'mutants', flush=True)
seen = set()
while time.time() < end and pool:
    f = rnd.choice(sorted({x[0] for x in pool})) if rnd.random() < 0.5 else rnd.choice(pool)[0]
    f, i, l, k = rnd.choice([x for x in pool if x[0] == f])
    pool.remove((f, i, l, k))
    ms = list(re.finditer(OPS[k][0], l.split('//')[0]))
    m = rnd.choice(ms)
    new = l[:m.start()] + m.expand(OPS[k][1]) + l[m.end():]
    if new == l: continue
    src = open(repo + '/' + f).read().split('\n')
    assert src[i] == l
    src[i] = new
    open(repo + '/' + f, 'w').write('\n'.join(src))
    res, by = 'SURVIVED', ''
    for c in checks(f):
        try: r = sh(f'cd {ver} && timeout 300 ./check.py {c} --tier quick --seed {1 + n % 4}', env=env)
        except Exception as e: print(e); break
        if 'VIOLATION' in r.stdout: res, by = 'caught', c; break
        if r.returncode == 124: res, by = 'caught', c + ' (hang)'; break
        if r.returncode != 0: res, by = 'invalid', r.stdout.strip().split('\n')[-1][-150:]; break
    n += 1
    rec = f'{res} {by} {f}:{i+1}\n  - {l.strip()}\n  + {new.strip()}\n'
    open(work + '/log.txt', 'a').write(rec)
    if res == 'SURVIVED': open(work + '/survivors.txt', 'a').write(rec)
    sh(f'git -C {repo} checkout -- .')

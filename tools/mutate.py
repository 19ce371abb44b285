"""mutate.py SEED COUNT OUT: generates random small changes of the Go sources of /repo,
keeps those that compile and pass the tests of both builds (in scratch copies) and
writes them as patches to OUT/.  mutcheck.py then verifies them."""
import os, random, re, shutil, subprocess, sys, tempfile
import concurrent.futures as cf

FILES = ['ristretto.go', 'scalar.go'] + ['edwards25519/' + f for f in (
    'curve.go', 'elligator.go', 'field.go', 'field_generic.go', 'field_mul64.go', 'field_radix51.go', 'table.go', 'vartime.go',
    'table_generic.go', 'table_radix51.go')]
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
SWAP = {'+': '-', '-': '+', '<<': '>>', '>>': '<<', '&': '|', '|': '&', '<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '==',
        '^': '|', '&&': '||', '||': '&&', '+=': '-=', '-=': '+=', '*': '+'}
OPS = re.compile(r' (<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|[-+&|<>^*]) ')
NUM = re.compile(r'\b(0x[0-9a-f]+|\d+)\b')
IDENT = re.compile(r'\b([a-z][A-Za-z]*)(\d+)\b')
IDX = re.compile(r'\[(\d+)\]')
ARGS = re.compile(r'\(([^(),]+), ([^(),]+)\)')
METH = [('.Add(', '.Sub('), ('.Sub(', '.Add('), ('AddExtended', 'SubExtended'), ('SubExtended', 'AddExtended'), ('.Square(', '.DoubledSquare('),
        ('.ConditionalSet(', '.Set(') , ('IsNegativeI', 'IsNonZeroI'), ('EqualsI', 'IsNonZeroI')]


def body_lines(lines):
    """indices of lines within function bodies"""
    inside, out = False, []
    for i, l in enumerate(lines):
        if l.startswith('func ') and l.rstrip().endswith('{'):
            inside = True
        elif l.startswith('}'):
            inside = False
        elif inside and l.strip() and not l.strip().startswith('//'):
            out.append(i)
    return out


def mutate(rng, lines, cand):
    i = rng.choice(cand)
    l = lines[i]
    code = l.split('//')[0]
    kinds = []
    if OPS.search(code):
        kinds += ['op'] * 3
    if NUM.search(code):
        kinds += ['num'] * 3
    if IDENT.search(code):
        kinds += ['ident'] * 2
    if IDX.search(code):
        kinds += ['idx'] * 2
    if ARGS.search(code):
        kinds += ['args'] * 2
    if any(a in code for a, b in METH):
        kinds += ['meth'] * 2
    if re.match(r'^\s+\S.*[^{,(]$', code.rstrip()) and not code.strip().startswith(('return', 'var', '}', 'case', 'for', 'if')):
        kinds += ['del'] * 2
    if re.match(r'^\s+\S.*[^{,(]$', code.rstrip()) and i + 1 < len(lines) and re.match(r'^\s+\S.*[^{,(]$', lines[i + 1].rstrip()) and '}' not in code + lines[i + 1]:
        pass
    if not kinds:
        return None
    k = rng.choice(kinds)
    new = list(lines)

    def sub(m, s):
        return code[:m.start()] + s + code[m.end():] + l[len(code):]
    if k == 'op':
        m = rng.choice(list(OPS.finditer(code)))
        new[i] = sub(m, ' %s ' % SWAP[m.group(1)])
    elif k == 'num':
        m = rng.choice(list(NUM.finditer(code)))
        v = int(m.group(1), 0)
        w = rng.choice([v + 1, v - 1, v ^ (1 << rng.randrange(max(1, v.bit_length()))), v + (1 << rng.randrange(6))])
        if w < 0:
            return None
        new[i] = sub(m, hex(w) if m.group(1).startswith('0x') else str(w))
    elif k == 'ident':
        m = rng.choice(list(IDENT.finditer(code)))
        n = int(m.group(2)) + rng.choice([-1, 1])
        if n < 0:
            return None
        new[i] = sub(m, m.group(1) + str(n))
    elif k == 'idx':
        m = rng.choice(list(IDX.finditer(code)))
        n = int(m.group(1)) + rng.choice([-1, 1])
        if n < 0:
            return None
        new[i] = sub(m, '[%d]' % n)
    elif k == 'args':
        m = rng.choice(list(ARGS.finditer(code)))
        a, b = m.group(1), m.group(2)
        new[i] = sub(m, rng.choice(['(%s, %s)' % (a, a), '(%s, %s)' % (b, b)]))
    elif k == 'meth':
        a, b = rng.choice([x for x in METH if x[0] in code])
        new[i] = code.replace(a, b, 1) + l[len(code):]
    elif k == 'del':
        new[i] = re.match(r'^\s*', l).group(0) + '// deleted: ' + l.strip() + '\n'
    elif k == 'swapl':
        new[i], new[i + 1] = new[i + 1], new[i]
    if new == lines:
        return None
    return k, i, new


def trial(args):
    n, seed, out = args
    rng = random.Random('%s/%s' % (seed, n))
    work = '/tmp/mutw/%d' % (os.getpid())
    repo = work + '/repo'
    if not os.path.isdir(repo):
        os.makedirs(work, exist_ok=True)
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    weights = [3, 6, 6, 6, 5, 3, 3, 3, 4, 4, 0.3, 0.3]
    f = rng.choices(FILES, weights)[0]
    p = os.path.join(repo, f)
    lines = open(p).readlines()
    try:
        if 'table_' in f:
            cand = [i for i, l in enumerate(lines) if NUM.search(l)]
            # tables and constants: change one number
            i = rng.choice(cand)
            ms = list(NUM.finditer(lines[i]))
            m = rng.choice(ms)
            v = int(m.group(1), 0)
            new = list(lines)
            new[i] = lines[i][:m.start()] + str(v ^ (1 << rng.randrange(20))) + lines[i][m.end():]
            k = 'table'
        else:
            r = mutate(rng, lines, body_lines(lines))
            if r is None:
                return None
            k, i, new = r
        open(p, 'w').writelines(new)
        env = dict(ENV, GOMAXPROCS='2', GOCACHE='/tmp/mutw/cache')
        for tags in ('', 'forcegeneric'):
            try:
                r = subprocess.run(['go', 'test', '-vet=off', '-count=1', '-timeout', '60s', '-tags', tags, './...'], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            except subprocess.TimeoutExpired:
                return (n, f, k, 'killed')
            if r.returncode != 0:
                o = r.stdout.decode(errors='replace')
                return (n, f, k, 'nobuild' if 'build failed' in o else 'killed')
        d = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE).stdout
        open(os.path.join(out, 'm%s-%05d.diff' % (seed, n)), 'wb').write(d)
        return (n, f, k, 'SURVIVED')
    finally:
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=repo)


if __name__ == '__main__':
    seed, count, out = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    os.makedirs(out, exist_ok=True)
    stat = {}
    try:
        with cf.ProcessPoolExecutor(7) as ex:
            for r in ex.map(trial, [(n, seed, out) for n in range(count)], chunksize=4):
                if r:
                    stat[r[3]] = stat.get(r[3], 0) + 1
    finally:
        shutil.rmtree('/tmp/mutw', ignore_errors=True)
    print(stat)

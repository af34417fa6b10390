#!/usr/bin/env python3
"""Mutation trial (development aid, not a check): mutate.py PIDS FILE[:a-b] ...
Applies small source mutations to a scratch copy of /repo/src and lists those no given check reports (--narrow: narrowed integers instead)."""
import sys, os, re, shutil, subprocess, tempfile, random
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pids = sys.argv[1].split(',')
OPS = [(r'(?<![=!<>+\-*/&|^%])==(?!=)', '!='), (r'!=', '=='), (r'(?<![<>\-])<=(?!>)', '<'), (r'(?<![<>\-])>=', '>'),
       (r'(?<= )<(?= )', '<='), (r'(?<= )>(?= )', '>='), (r'&&(?= )', '||'), (r'\|\|', '&&'), (r'\+\+', '--'), (r'(?<!-)--(?!-)', '++'),
       (r'\+=', '-='), (r'-=', '+='), (r'(?<= )\+(?= )', '-'), (r'(?<= )-(?= )', '+'), (r'(?<= )\*(?= )', '/'), (r'(?<= )/(?= )', '*'),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])([2-9]|[1-9]\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1)),
       (r'\bif\(!', 'if('), (r'\bif\((?!!)', 'if(!('), (r'std::move\(', '('), (r'std::forward<\w+>\(', '('), (r'<<', '>>'), (r'>>(?!\s*[;{(]|\s*\w+\s*[;({:])', '<<'),
       (r'(?<= )& (?!&)', '| '), (r'(?<= )\| ', '& '), (r'(?<= )\^ ', '| '), (r'%', '/')]
def mutants(f, a, b):
    L = open(f).read().split('\n')
    incom = False
    for i, l in enumerate(L):
        s = l.strip()
        if '/*' in s: incom = True
        if incom:
            if '*/' in s: incom = False
            continue
        if not (a <= i + 1 <= b) or not s or s.startswith(('//', '#', '*')): continue
        code = l.split('//')[0]
        if re.match(r'\s*(template|typedef|using|namespace|static_assert|struct|class|public|protected|private|friend|enum|extern)\b', code): 
            if not re.search(r'[;{].*[;{]', code): continue
        if '--narrow' in sys.argv:
            for m in re.finditer(r'\b(size_t|size_type|unsigned|int|streamsize|difference_type|ptrdiff_t|off_type|pos_type|uint16_t|index_type|uint32_t|unsigned long|long)(?= (const )?\w+\s*(=|\(|\{|,|\)|;))', code):
                n = code[:m.start()] + 'unsigned char' + code[m.end():]
                yield i, n
            continue
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if pat in (r'(?<= )<(?= )', r'(?<= )>(?= )') and 'template' in code: continue
                r = rep(m) if callable(rep) else rep
                n = code[:m.start()] + r + code[m.end():]
                if r == 'if(!(':
                    # close: last ')' that balances
                    d = 0; k = m.end() + 2 - 0
                    st = m.start() + len('if(')
                    for j in range(st, len(code)):
                        if code[j] == '(': d += 1
                        if code[j] == ')':
                            if d == 0: n = code[:st] + '!(' + code[st:j] + ')' + code[j:]; break
                            d -= 1
                    else: continue
                yield i, n
        if s.endswith(';') and not re.match(r'(return|typedef|using|break|continue|case|friend|goto|else|static|constexpr|const|unsigned|int|bool|char|auto|size_type|typename)\b', s) and \
           re.match(r'^[\w:\->\.\*\(\)\+\-<>,& \[\]=!"\'|]+;$', s) and not re.match(r'^[\w:<>]+[&\* ]+\w+(\(.*\))?( const)?( = .*)?;$', s) and s != '};':
            yield i, re.match(r'\s*', l).group(0) + ';'
def main():
    jobs = []
    for spec in sys.argv[2:]:
        if spec.startswith('--'): continue
        f, _, rng = spec.partition(':')
        a, b = (map(int, rng.split('-')) if rng else (1, 10**9))
        full = f if f.startswith('/') else '/repo/src/estd/' + f
        seen = set()
        for i, n in mutants(full, a, b):
            if (i, n) not in seen: seen.add((i, n)); jobs.append((full, i, n))
    mx = [int(x[6:]) for x in sys.argv if x.startswith('--max=')]
    if mx and len(jobs) > mx[0]:
        random.seed(1); jobs = sorted(random.sample(jobs, mx[0]), key=lambda j: (j[0], j[1]))
    print(len(jobs), 'mutants')
    W = 5
    scratch = [tempfile.mkdtemp(prefix='mut_', dir='/tmp') for _ in range(W)]
    for s in scratch: shutil.copytree("/repo/src", s + "/src")
    global text0; text0 = {f: open(f).read() for f, _, _ in jobs}
    pool = list(scratch)
    def go(job):
        f, i, n = job
        s = pool.pop()
        t = s + f[len('/repo'):]
        orig = text0[f]
        L = orig.split('\n'); L[i] = n
        open(t, 'w').write('\n'.join(L))
        res = {}
        try:
            for p in pids:
                try:
                    r = subprocess.run(['python3', V + '/check.py', p, '--repo', s], capture_output=True, text=True, env=dict(os.environ, VERIF_OUT=s), timeout=300)
                    res[p] = r.returncode
                except subprocess.TimeoutExpired: res[p] = 'timeout'
                if res[p] == 1:
                    if 'well-formed use' in r.stdout and 'obligation ' not in r.stdout.replace('obligations', ''): res[p] = 'C'
                    break
        finally:
            open(t, 'w').write(orig); pool.append(s)
        return job, res
    k = c = 0
    with ThreadPoolExecutor(W) as ex:
        for (f, i, n), res in ex.map(go, jobs):
            v = list(res.values())
            if 'C' in v: c += 1; continue
            if 1 in v: k += 1; continue
            print('SURVIVED %s:%d  %s   %s' % (f[len('/repo/src/estd/'):], i + 1, n.strip(), res))
    print('killed', k, 'not compiling', c, 'survived', len(jobs) - k - c)
    for s in scratch: shutil.rmtree(s)
main()

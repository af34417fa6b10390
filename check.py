#!/usr/bin/env python3
"""check.py <PROPERTY> [--repo DIR]: decides one property of /repo's current source statically.

Exit 0: every rule instance of the property holds.  Exit 1: a VIOLATION line names the replay file.
Anything else: the analysis itself could not be carried out (missing anchor, unparsable unit, ...).
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, glob, importlib.util, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get('VERIF_OUT', V)   # where evidence/ and replay/ go (mutation trials redirect it)
LLVM = '/usr/lib/llvm-18'
CLANGXX = LLVM + '/bin/clang++'
CLANG = LLVM + '/bin/clang'

class Broken(Exception):
    pass

def build_tools():
    """Builds the analysers when absent (setup_cmd normally has)."""
    subprocess.run(['bash', os.path.join(V, 'setup.sh')], check=True, stdout=subprocess.DEVNULL)

DEFAULT_FLAGS = ('-O2 -Xclang -disable-llvm-passes -gline-tables-only -w -ferror-limit=0 -fwrapv -fno-strict-aliasing '
    '-fno-delete-null-pointer-checks -ftrivial-auto-var-init=pattern -fno-builtin-printf -fno-finite-loops '
    '-Xclang -disable-lifetime-markers -fno-vectorize -fno-slp-vectorize '
    '-DFEATURE_ESTD_COMPILE_STRICTNESS=4 -DFEATURE_ESTD_COMPILE_VERBOSITY=0').split()
OPT_FLAGS = ('-inline-threshold=1000000 -inlinehint-threshold=1000000 -inlinecold-threshold=1000000 '
    '-inline-cold-callsite-threshold=1000000 -vectorize-loops=false -vectorize-slp=false '
    '-unroll-threshold=20000 -unroll-max-iteration-count-to-analyze=64 -unroll-max-upperbound=64 '
    '-memdep-block-scan-limit=5000 -available-load-scan-limit=500 -memdep-block-number-limit=2000 -gvn-max-num-deps=1000 '
    '-memssa-check-limit=1000 -earlycse-mssa-optimization-cap=50000').split()

# abnormal ends which an obligation must not be able to reach unless its file allows them
FORBID = {
    'throw': ['__cxa_throw', '__cxa_rethrow', '__cxa_bad_cast', '_ZSt20__throw_length_errorPKc', '_ZSt20__throw_out_of_range_fmtPKcz'],
    'abort': ['abort', '_ZSt9terminatev', '__clang_call_terminate', '__assert_fail', 'exit', '_exit'],
    'new': ['_Znwm', '_Znam', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'malloc', 'free', 'realloc', 'calloc',
            '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t'],
    'trap': ['llvm.trap', 'llvm.ubsantrap'],
}

class Ctx:
    def __init__(self, pid, repo, tier):
        self.pid, self.repo, self.tier = pid, repo, tier
        self.src = os.path.join(repo, 'src')
        self.tmp = tempfile.mkdtemp(prefix='vf_')
        self.violations = []      # dicts
        self.analysed = {'units': [], 'obligations': 0, 'discharged': 0, 'facts': 0, 'static_facts': 0,
                         'functions': set(), 'instances': {}, 'samples': []}
        self.notes = []

    def violate(self, rule, where, detail, **kw):
        self.violations.append(dict(rule=rule, where=where, detail=detail, **kw))

    def rel(self, f):
        f = os.path.normpath(f)
        for base in (self.repo, V):
            if f.startswith(base + '/'):
                return f[len(base) + 1:]
        return f

def head(path):
    """// key: value header lines of an obligation file"""
    h = {}
    with open(path) as f:
        for l in f:
            m = re.match(r'//\s*([a-z-]+):\s*(.*?)\s*$', l)
            if not m:
                if l.strip() and not l.startswith('//'): break
                continue
            h[m.group(1)] = (h.get(m.group(1), '') + ' ' + m.group(2)).strip()
    return h

def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

STATIC_RE = re.compile(r'^(?P<file>[^:\n]+):(?P<line>\d+):\d+: error: static assertion failed[^\n]*?OBL_STATIC (?P<name>\w+)', re.M)
ERR_RE = re.compile(r'^(?P<file>[^:\n]+):(?P<line>\d+):\d+: (?:fatal )?error: (?P<msg>[^\n]*)', re.M)

def peel(h):
    """Loops of unknown trip count are peeled, so that the passes can decide them when the data bounds them."""
    return ['-unroll-force-peel-count=' + h['peel'], '-disable-loop-idiom-all', '-unroll-allow-loop-nests-peeling'] if 'peel' in h else []

def compile_unit(ctx, path, std, h, out, forbid):
    cmd = [CLANGXX, '-std=gnu++' + std, *DEFAULT_FLAGS, '-I' + V + '/lib']
    stubs = h.get('stubs')
    if stubs:
        for s in stubs.split(): cmd.append('-I' + os.path.join(V, 'lib', s))
    cmd += ['-I' + ctx.src, *h.get('flags', '').split(), '-emit-llvm', '-c', path, '-o', out]
    r = run(cmd, timeout=800)
    if r.returncode == 0 and h.get('link'):
        # the library's own translation units which the obligations call into
        bcs = []
        for i, u in enumerate(h['link'].split()):
            src = os.path.join(ctx.src, u)
            if not os.path.exists(src): raise Broken('%s: no such library source' % u)
            c = src.endswith('.c')
            lc = [CLANG if c else CLANGXX, '-std=' + ('gnu11' if c else 'gnu++' + std), *DEFAULT_FLAGS, '-I' + ctx.src,
                  *h.get('flags', '').split(), '-emit-llvm', '-c', src, '-o', out + '.l%d' % i]
            lr = run(lc, timeout=800)
            if lr.returncode != 0: raise Broken('%s does not compile: %s' % (u, lr.stderr[-1500:]))
            bcs.append(out + '.l%d' % i)
        lr = run([LLVM + '/bin/llvm-link', out, *bcs, '-o', out])
        if lr.returncode != 0: raise Broken('llvm-link: ' + lr.stderr[-1500:])
        for b in bcs: os.unlink(b)
    if r.returncode == 0:
        p = run([os.path.join(V, 'build/oblcheck'), '--prepare=' + out + '.p', out])
        if p.returncode != 0: raise Broken('IR preparation failed on %s: %s' % (path, p.stderr[-1500:]))
        subs = json.loads(p.stdout)
        obls = fold(h, forbid, out, path)
        os.unlink(out + '.p')
        return cmd, r, subs, obls
    return cmd, r, [], None

def fold(h, forbid, out, path):
    """Runs the data-flow passes over out.p (result: out), in rounds over the obligations not settled yet where loops are peeled."""
    obls = {}
    src = out + '.p'
    deadline = time.time() + 330
    rounds = int(h.get('rounds', 4)) if 'peel' in h else 1
    for i in range(rounds):
        try:
            p = run([LLVM + '/bin/opt', '-passes=default<O2>', *OPT_FLAGS, *peel(h), src, '-o', out], timeout=max(20, min(250, deadline - time.time())))
        except subprocess.TimeoutExpired:
            if i: shutil.copy(src, out); break      # settled as far as it got
            p = run([LLVM + '/bin/opt', '-passes=default<O2>', *OPT_FLAGS, src, '-o', out], timeout=250)   # what the plain passes can decide
        if p.returncode != 0: raise Broken('IR passes failed on %s: %s' % (path, p.stderr[-1500:]))
        j = residuals(h, forbid, out)
        if i == 0: obls = {o['name']: o for o in j['obligations']}
        else:
            now = {o['name']: o for o in j['obligations']}
            for n, o in now.items(): o['residual'] = [r for r in o['residual'] if 'kind' in r or any(r['sym'] == q['sym'] for q in obls[n]['residual'])]
            obls.update(now)
        if not any(o['residual'] for o in obls.values()): break
        if i + 1 == rounds: break
        src = out + '.p'
        with open(out + '.l', 'w') as f: f.write('\n'.join(n for n, o in obls.items() if not o['residual'] and o['reached']))
        p = run([os.path.join(V, 'build/oblcheck'), '--again=' + src, '--settled=' + out + '.l', out])
        os.unlink(out + '.l')
        if p.returncode != 0: raise Broken('IR preparation failed on %s: %s' % (path, p.stderr[-1500:]))
    return list(obls.values())

def residuals(h, forbid, bc):
    t = run([os.path.join(V, 'build/oblcheck'), *['--forbid=' + f for f in forbid],
             *(['--no-indirect'] if h.get('indirect') == 'forbid' else []), bc])
    if t.returncode != 0:
        raise Broken('oblcheck failed on %s: %s' % (bc, t.stderr[-500:]))
    return json.loads(t.stdout)

GCC_FLAGS = ('-O3 -w -fwrapv -fno-strict-aliasing -fno-delete-null-pointer-checks -ftrivial-auto-var-init=pattern -fno-lifetime-dse '
    '-fno-tree-vectorize -fno-reorder-functions -fno-reorder-blocks-and-partition -fno-asynchronous-unwind-tables '
    '--param max-inline-insns-single=100000 --param max-inline-insns-auto=100000 --param large-function-insns=1000000 '
    '--param inline-unit-growth=100000 --param large-unit-insns=1000000 --param large-function-growth=100000 '
    '--param large-stack-frame-growth=100000 --param early-inlining-insns=10000 --param max-completely-peel-times=64 '
    '--param max-completely-peeled-insns=20000 '
    '-DFEATURE_ESTD_COMPILE_STRICTNESS=4 -DFEATURE_ESTD_COMPILE_VERBOSITY=0').split()

def gcc_alive(ctx, path, std, h, unit):
    """Second data-flow engine: symbols still referenced from each obligation after g++ -O3 (assembly text)."""
    out = os.path.join(ctx.tmp, unit + std + '.s')
    cmd = ['g++', '-std=gnu++' + std, *GCC_FLAGS, '-I' + V + '/lib']
    for s in h.get('stubs', '').split(): cmd.append('-I' + os.path.join(V, 'lib', s))
    cmd += ['-I' + ctx.src, *[f for f in h.get('flags', '').split() if not f.startswith('-fsanitize') and f != '-mllvm' and not f.startswith('-unroll')], '-S', path, '-o', out]
    r = run(cmd, timeout=800)
    if r.returncode != 0: return None
    refs, cur = {}, None
    for l in open(out):
        m = re.match(r'([A-Za-z_.$][\w.$]*):', l)
        if m:
            if not m.group(1).startswith('.L'): cur = m.group(1); refs.setdefault(cur, set())
            continue
        m = re.match(r'\t([.a-z]\w*)\t(.*)', l)
        if cur and m: refs[cur].update(re.findall(r'[A-Za-z_$][\w.$]*', m.group(2)))
    os.unlink(out)
    alive = {}
    for f in refs:
        if not f.startswith(('obl_', '_ZN4oblt')): continue
        seen, q = {f}, [f]
        while q:
            for x in refs.get(q.pop(), ()):
                if x not in seen: seen.add(x); q.append(x)
        for x in list(seen):
            m = re.match(r'_ZN3obl(8violated|5never|9hviolated)ILi(\d+)E', x)
            if m: seen.add('obl_violated_%s_%s' % ('hdr' if m.group(1)[0] == '9' else 'u', m.group(2)))
        alive[f.split('.')[0]] = alive.get(f.split('.')[0], set()) | seen
    return alive

def readable(name):
    if not name.startswith('_Z'): return name
    n = run(['c++filt', name]).stdout.strip()
    return re.sub(r'\(.*', '', re.sub(r'^(void )?oblt::', 'oblt_', n)).replace(' ', '') or name

def narrow(obls, alive_of):
    """A fact is discharged when any one engine proves it dead; keep what every engine leaves alive."""
    for o in obls:
        a = alive_of(o['name'])
        if a is None: continue
        o['residual'] = [r for r in o['residual'] if 'kind' in r or r['sym'] in ('indirect',) or r['sym'] in a]

def jobs_of(ctx, path):
    """One job per language standard and shard (a shard selects part of a file, to spread the work)."""
    h = head(path)
    stds = h.get('std', '17').split()
    if ctx.tier == 'thorough':
        stds += [s for s in h.get('thorough', '').split() if s not in stds]
    shards = h.get('shards', '-').split()
    if ctx.tier == 'thorough': shards += h.get('thorough-shards', '').split()
    return [(path, std, sh) for std in stds for sh in shards]

def obl_file(ctx, path, std, shard):
    t0 = time.time()
    try: return obl_file_(ctx, path, std, shard)
    finally:
        if os.environ.get('OBL_TIMES'): print('%s part %s c++%s: %.1fs' % (ctx.rel(path), shard, std, time.time() - t0), file=sys.stderr)

def obl_file_(ctx, path, std, shard):
    h = head(path)
    if shard != '-': h['flags'] = h.get('flags', '') + ' -DSHARD=' + shard
    unit = os.path.splitext(os.path.basename(path))[0] + ('' if shard == '-' else '.' + shard)
    stds = [std]
    text = open(path).read()
    src_lines = text.split('\n')
    hdr_lines = open(os.path.join(V, 'lib/obl.h')).read().split('\n')
    allow = h.get('allow', '').split()
    forbid = [s for k, v in FORBID.items() if k not in allow for s in v]
    results = []
    for std in stds:
        out = os.path.join(ctx.tmp, '%s_%s.bc' % (unit, std))
        cmd, r, subs, obls = compile_unit(ctx, path, std, h, out, forbid)
        if r.returncode != 0:
            stat = list(STATIC_RE.finditer(r.stderr))
            errs = [m for m in ERR_RE.finditer(r.stderr)]
            other = [m for m in errs if 'OBL_STATIC' not in m.group('msg')]
            if not errs or any('file not found' in m.group('msg') for m in errs):
                raise Broken('%s (c++%s) cannot be analysed: %s' % (ctx.rel(path), std,
                    '; '.join('%s:%s: %s' % (m.group('file'), m.group('line'), m.group('msg')) for m in other[:5]) or r.stderr[-2000:]))
            for m in stat:
                results.append(('violation', dict(rule='type-level fact ' + m.group('name'),
                    where='%s:%s' % (ctx.rel(m.group('file')), m.group('line')),
                    detail=src_lines[int(m.group('line')) - 1].strip() if m.group('file') == path else m.group(0),
                    std=std, notes=[l for l in r.stderr.split('\n') if 'note:' in l][:10])))
            # A client program that type-checked on the confirmed tree no longer does (rule: well-formed use).
            for m in other[:20]:
                seg = r.stderr[m.end():]
                nx = ERR_RE.search(seg)
                seg = seg[:nx.start()] if nx else seg
                use = [x for x in re.findall(r'^(%s:\d+):' % re.escape(path), m.group(0) + seg, re.M)]
                results.append(('violation', dict(rule='well-formed use of the public interface in ' + unit + ' [' + std + ']',
                    where='%s:%s' % (ctx.rel(m.group('file')), m.group('line')),
                    detail=m.group('msg'), call_chain=[ctx.rel(u) for u in use[:5]])))
            # facts which failed make the rest of the unit undecidable in this run
            results.append(('static', len(re.findall(r'\bOBL_STATIC\(', text))))
            continue
        if any(o['residual'] for o in obls):
            out2 = out + '2'
            r2 = run([LLVM + '/bin/opt', '-passes=default<O3>', *OPT_FLAGS, *peel(h), out, '-o', out2])
            if r2.returncode == 0:
                alt = {o['name']: {r['sym'] for r in o['residual']} for o in residuals(h, forbid, out2)['obligations']}
                narrow(obls, alt.get)
            if os.path.exists(out2): os.unlink(out2)
        if any(o['residual'] for o in obls) and h.get('gcc') != 'no' and not h.get('link'):
            alive = gcc_alive(ctx, path, std, h, unit)
            if alive is not None: narrow(obls, alive.get)
        os.unlink(out)
        results.append(('subs', [s for s in subs if os.path.normpath(s['file']).startswith(ctx.src + '/')]))
        results.append(('unit', '%s c++%s%s' % (ctx.rel(path), std, '' if shard == '-' else ' part ' + shard)))
        results.append(('static', len(re.findall(r'\bOBL_STATIC\(', text))))
        results.append(('facts', len(re.findall(r'\bOBL_(?:REQUIRE|NEVER)\(', text))))
        for o in obls:
            if o['residual'] or not o['reached']: o['name'] = readable(o['name'])
            bad = False
            seen = set()
            for r2 in o['residual']:
                sym = r2['sym']
                m = re.match(r'obl_violated_(\w+)_(\d+)$', sym)
                frames = r2['frames']
                sl = [f for f in r2.get('slice', []) if os.path.normpath(f['file']).startswith(ctx.src + '/')]
                lib = [f for f in frames if os.path.normpath(f['file']).startswith(ctx.src + '/')]
                if m:
                    ln = int(m.group(2))
                    what = (hdr_lines if m.group(1) == 'hdr' else src_lines)[ln - 1].strip()
                    key = (sym,)
                else:
                    what = 'abnormal end reachable: call to ' + sym + (' kind %s' % r2['kind'] if 'kind' in r2 else '')
                    key = (sym, json.dumps(lib[:1]))
                if key in seen: continue
                seen.add(key)
                bad = True
                c = (lib or sl or frames)[:1]
                results.append(('violation', dict(rule='obligation ' + o['name'] + ' [' + std + ']',
                    where=('%s:%s %s' % (ctx.rel(c[0]['file']), c[0]['line'], c[0].get('func', ''))) if c else path,
                    detail=what,
                    stated_at='%s:%s' % (ctx.rel(path), ln if m and m.group(1) != 'hdr' else o.get('line', '?')),
                    call_chain=['%s:%s %s' % (ctx.rel(f['file']), f['line'], f.get('func', '')) for f in frames],
                    library_conditions=['%s:%s %s' % (ctx.rel(f['file']), f['line'], f.get('func', '')) for f in sl][:25])))
            if not bad and not o['reached']:
                # The end is unreachable although no fact failed: the function always aborts, or the
                # quantified inputs reach undefined behaviour on every path.
                bad = True
                results.append(('violation', dict(rule='obligation ' + o['name'] + ' [' + std + ']',
                    where='%s:%s' % (ctx.rel(path), o.get('line', '?')),
                    detail='no input reaches the end of the obligation: every path is cut by undefined behaviour or does not return')))
            results.append(('obl', (o['name'], std, not bad, o['insts'])))
    return results

def run_obligations(ctx, files):
    with ThreadPoolExecutor(max_workers=8) as ex:
        jobs = [j for f in files for j in jobs_of(ctx, f)]
        futs = [(j, ex.submit(obl_file, ctx, *j)) for j in jobs]
        count, failed = {}, set()
        for (f, std, shard), fu in futs:
            res = fu.result()
            n = sum(1 for k, _ in res if k == 'obl')
            count[f, std] = count.get((f, std), 0) + n
            if not any(k == 'unit' for k, _ in res): failed.add((f, std))   # did not type-check: reported as such
            for kind, v in res:
                a = ctx.analysed
                if kind == 'violation': ctx.violations.append(v)
                elif kind == 'subs':
                    for s in v: a['functions'].add('%s:%s %s' % (ctx.rel(s['file']), s['line'], s['func'][:160]))
                elif kind == 'unit': a['units'].append(v)
                elif kind == 'static': a['static_facts'] += v
                elif kind == 'facts': a['facts'] += v
                elif kind == 'obl':
                    a['obligations'] += 1
                    a['discharged'] += bool(v[2])
                    if len(a['samples']) < 12 or not v[2]:
                        a['samples'].append('%s (c++%s): %s' % (v[0], v[1], 'discharged' if v[2] else 'NOT discharged'))
        for (f, std), n in count.items():
            floor = int(head(f).get('min', '1'))
            if n < floor and (f, std) not in failed:
                raise Broken('%s: %d obligations found, %d confirmed by hand' % (ctx.rel(f), n, floor))

def known_findings(pid):
    p = os.path.join(V, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    t0 = time.time()
    pid = sys.argv[1]
    repo = '/repo'
    if '--repo' in sys.argv: repo = sys.argv[sys.argv.index('--repo') + 1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    d = os.path.join(V, 'obl', pid)
    if not os.path.isdir(d): print('no such property', pid); sys.exit(2)
    if not os.path.exists(os.path.join(V, 'build/oblcheck')): build_tools()
    ctx = Ctx(pid, os.path.realpath(repo), tier)
    try:
        files = sorted(glob.glob(d + '/*.cpp'))
        files = [f for f in files if tier == 'thorough' or head(f).get('tier') != 'thorough']
        if files: run_obligations(ctx, files)
        rp = os.path.join(d, 'rules.py')
        if os.path.exists(rp):
            sys.path.insert(0, os.path.join(V, 'lib'))
            spec = importlib.util.spec_from_file_location('rules', rp)
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
            mod.check(ctx)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, e))
        sys.exit(3)
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)

    known = known_findings(pid)
    new, old = [], []
    for v in ctx.violations:
        k = [x for x in known if x[0] in (v.get('key'), v['rule'].split(' ')[1] if ' ' in v['rule'] else v['rule'])]
        (old if k else new).append(v)
    a = ctx.analysed
    cov = dict(
        explanation='Static analysis of the current source; nothing is executed. Obligations are functions over unknown '
            'parameters that drive the library; each is compiled to IR and is discharged when the data-flow passes prove '
            'every violated()/abnormal-end call dead for all parameter values (lib/obl.h, tools/oblcheck.cpp). '
            'Type-level facts are static assertions over the type-checked program. Structural rules are queries over '
            'the AST/CFG/call graph; "rule_instances" counts the instances each rule matched.',
        units=a['units'], obligations=a['obligations'], discharged=a['discharged'],
        facts_stated=a['facts'], type_level_facts=a['static_facts'],
        library_functions_analysed=len(a['functions']),
        library_functions_sample=sorted(a['functions'])[:25],
        rule_instances=a['instances'], samples=a['samples'][:40], notes=ctx.notes,
        violations_detail=new[:20], known_findings=[v['rule'] for v in old])
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov,
        assumptions=['clang 18 front end and IR passes are correct',
                     'facts hold for the instantiations listed in the obligation files; templates are otherwise parametric in the stated types'],
        wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k, txt in known:
        if any(k in (v.get('key'), v['rule'].split(' ')[1] if ' ' in v['rule'] else v['rule']) for v in old):
            print('KNOWN-FINDING: property=%s %s' % (pid, txt))
    print('property %s (%s): %d obligations (%d discharged), %d facts, %d type-level facts, %d library functions, rules %s, %.1fs' % (
        pid, tier, a['obligations'], a['discharged'], a['facts'], a['static_facts'], len(a['functions']), json.dumps(a['instances']), time.time() - t0))
    if new:
        os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
        rp = os.path.join(OUT, 'replay', pid + '.json')
        with open(rp, 'w') as f: json.dump(new, f, indent=1)
        for v in new[:10]:
            print('  %s\n    at %s\n    %s' % (v['rule'], v['where'], v['detail']))
            for l in v.get('call_chain', [])[:8]: print('      in ' + l)
            for l in v.get('library_conditions', [])[:6]: print('      depends on ' + l)
        if len(new) > 10: print('  ... %d more' % (len(new) - 10))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    sys.exit(0)

if __name__ == '__main__':
    main()

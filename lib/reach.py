"""P24 and P27: which functions can be reached from the uses of the fixed facilities, as the program is written.

Every obligation file of the other properties is a client of some facility. Each is compiled to IR from the current
source with no pass run, so that its call graph leaves out no path of any input, and tools/oblcheck --reach follows it from
all obligations. P24: no function of the heap may be named there, and no vtable of the library. P27: no variable of the
library which lasts beyond a call and is not constant.
"""
import glob, json, os
from concurrent.futures import ThreadPoolExecutor

HEAP = ['malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'posix_memalign', 'memalign', 'valloc', 'strdup', 'strndup', 'reallocarray',
        '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t',
        '_ZnwmSt11align_val_tRKSt9nothrow_t', '_ZnamSt11align_val_tRKSt9nothrow_t',
        '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdaPvSt11align_val_t', '_ZdaPvmSt11align_val_t',
        '_ZdlPvRKSt9nothrow_t', '_ZdaPvRKSt9nothrow_t', 'sbrk', 'mmap', 'asprintf', 'vasprintf', 'getline', 'getdelim']
# what has virtual functions by design: exception types, deleters of shared owners, streambufs of the classic kind (and what
# makes one of them out of another), callables dispatched virtually. Their deleting destructors name operator delete.
BY_DESIGN = ['estd::bad_optional_access', 'estd::bad_variant_access', 'estd::bad_expected_access<', 'estd::internal::deleter_base', 'estd::internal::shared_ptr_control_block<',
    'estd::internal::shared_ptr_inline_deleter_control_block<', 'estd::internal::basic_streambuf_wrapped<', 'estd::basic_streambuf<',
    'estd::internal::impl::basic_streambuf<', 'estd::internal::streambuf<estd::internal::impl::basic_streambuf<', 'estd::detail::impl::function_virtual<']
STATE_BY_DESIGN = ['estd::experimental::static_function<']     # holds one callable per type, as its name says
def by_design(x):
    if x['kind'] == 'state': return x['sym'].startswith(tuple(STATE_BY_DESIGN))
    name = x['sym'][len('vtable for '):] if x['kind'] == 'virtual' else x['path'][0]['func']
    if x['kind'] == 'heap' and not (x['sym'].startswith('operator delete') and '::~' in name): return False
    return name.startswith(tuple(BY_DESIGN))

TEXT = dict(heap='%s can be reached from a use of a fixed facility', virtual='%s: an object of the library carries virtual functions',
    state='%s: a variable of the library lasts beyond the call and can change')

def check(ctx, kinds):
    debug = ['-g'] if 'state' in kinds else []
    import __main__ as C
    V = C.V
    jobs = []
    for f in sorted(glob.glob(V + '/obl/*/*.cpp')):
        pid = os.path.basename(os.path.dirname(f))
        if not pid.startswith('P'): continue
        h = C.head(f)
        if 'new' in h.get('allow', '').split() or h.get('stubs'): continue     # owning lists, function with its own storage
        shards = h.get('shards', '-').split()
        if ctx.tier == 'thorough': shards += h.get('thorough-shards', '').split()
        stds = h.get('std', '17').split()[:1]
        if ctx.tier == 'thorough': stds += h.get('thorough', '').split()
        for std in stds:
            for sh in shards: jobs.append((f, h, std, sh))
    def one(n, j):
        f, h, std, sh = j
        out = os.path.join(ctx.tmp, 'r%d.bc' % n)
        cmd = [C.CLANGXX, '-std=gnu++' + std, *C.DEFAULT_FLAGS, *debug, '-I' + V + '/lib', '-I' + ctx.src, *h.get('flags', '').split(), *(['-DSHARD=' + sh] if sh != '-' else []),
               '-emit-llvm', '-c', f, '-o', out]
        r = C.run(cmd, timeout=400)
        if r.returncode != 0: return None
        for k, u in enumerate(h.get('link', '').split()):
            src = os.path.join(ctx.src, u)
            c = src.endswith('.c')
            lr = C.run([C.CLANG if c else C.CLANGXX, '-std=' + ('gnu11' if c else 'gnu++' + std), *C.DEFAULT_FLAGS, *debug, '-I' + ctx.src, '-emit-llvm', '-c', src, '-o', out + '.l'])
            if lr.returncode != 0: return None
            lr = C.run([C.LLVM + '/bin/llvm-link', out, out + '.l', '-o', out])
            if lr.returncode != 0: raise C.Broken('llvm-link: ' + lr.stderr[-500:])
        t = C.run([V + '/build/oblcheck', '--reach', *['--forbid=' + s for s in HEAP], out])
        os.unlink(out)
        if t.returncode != 0: raise C.Broken('oblcheck --reach failed on %s: %s' % (f, t.stderr[-500:]))
        return json.loads(t.stdout)
    with ThreadPoolExecutor(max_workers=8) as ex: got = list(ex.map(lambda x: one(*x), enumerate(jobs)))
    roots = edges = skipped = reached = 0
    ext = set()
    told = set()
    for (f, h, std, sh), d in zip(jobs, got):
        name = '%s c++%s%s' % (ctx.rel(f), std, '' if sh == '-' else ' part ' + sh)
        if d is None:
            # does not type-check any more: what is wrong there is for the property of that file to say
            skipped += 1
            ctx.notes.append('not analysed, as it does not compile: ' + name)
            continue
        ctx.analysed['units'].append(name)
        roots += d['roots']; edges += d['edges']; reached += d['functions']
        ext |= set(d['externals'])
        for s in d['library']: ctx.analysed['functions'].add('%s:%s %s' % (ctx.rel(s['file']), s['line'], s['func'][:160]))
        for x in d['hits']:
            if x['kind'] not in kinds or by_design(x): continue
            lib = [p for p in x['path'] if os.path.normpath(p['file']).startswith(ctx.src + '/')]
            if x['kind'] == 'state':
                if not os.path.normpath(x['file']).startswith(ctx.src + '/'): continue      # the client's own
                where = '%s:%s' % (ctx.rel(x['file']), x['line'])
                key = (x['file'], x['line'])
            else:
                if not lib: continue        # the client's own doing
                where = '%s:%s %s' % (ctx.rel(lib[0]['file']), lib[0]['line'], lib[0]['func'][:160])
                key = (x['sym'], lib[0]['file'], lib[0]['line'])
            if key in told: continue
            told.add(key)
            ctx.violate('no-%s %s' % (x['kind'], x['sym'][:120]), where, TEXT[x['kind']] % x['sym'],
                call_chain=['%s:%s %s' % (ctx.rel(p['file']), p['line'], p['func'][:160]) for p in x['path']])
    if skipped * 2 > len(jobs): raise C.Broken('most uses do not compile')
    if roots < 2000 or len(ctx.analysed['functions']) < 2500: raise C.Broken('only %d uses, %d library functions seen' % (roots, len(ctx.analysed['functions'])))
    ctx.analysed['obligations'] += roots
    ctx.analysed['discharged'] += roots if not told else 0
    ctx.analysed['instances'].update({'uses': roots, 'call edges': edges, 'functions reached': reached, 'functions from outside': len(ext)})
    ctx.analysed['samples'].append('functions from outside which are reached: ' + ', '.join(sorted(ext))[:1500])

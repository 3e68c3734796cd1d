"""Optimiser-discharged compile-time obligations (see witness/qlv.h)."""
import itertools, re, time, multiprocessing, subprocess, os, sys, concurrent.futures
import ring

REPO = os.environ.get('QLV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ['-std=c++20', '-DNDEBUG', '-I' + VERIF + '/witness', '-I' + VERIF + '/witness/stub', '-I' + REPO + '/include', '-w',
        '-fwrapv', '-fno-strict-aliasing', '-ftrivial-auto-var-init=pattern', '-fno-finite-loops',
        '-fno-math-errno', '-ffp-contract=off', '-fno-stack-protector']
# algebra: equality of real-number expressions up to reassociation / sign of zero; NaN semantics kept
ALG = ['-fassociative-math', '-fno-signed-zeros', '-fno-trapping-math']
CL = ['clang++'] + BASE + ['-mllvm', '-inline-threshold=20000', '-mllvm', '-inlinecold-threshold=20000', '-mllvm', '-inline-cold-callsite-threshold=20000',
     '-S', '-emit-llvm', '-o', '-']
# the analyses' search limits (memory dependence, capture tracking, ...) are raised: whole runs of a program stay in view
DEEP = [x for kv in ('memdep-block-scan-limit=5000', 'memdep-block-number-limit=2000', 'memssa-check-limit=5000', 'earlycse-mssa-optimization-cap=5000',
                     'available-load-scan-limit=300', 'gvn-max-num-deps=1000', 'capture-tracking-max-uses-to-explore=3000') for x in ('-mllvm', '-' + kv)]
CL += DEEP
GC = ['g++'] + BASE + ['-fno-lifetime-dse', '-fno-guess-branch-probability', '-fno-reorder-blocks-and-partition', '-fno-ipa-icf', '-finline-limit=50000',
      '--param', 'max-inline-insns-auto=5000', '--param', 'max-inline-insns-single=5000',
      '--param', 'inline-unit-growth=5000', '--param', 'large-function-growth=5000',
      '--param', 'large-stack-frame-growth=5000', '--param', 'large-function-insns=100000', '-S', '-o', '-']
CONFIGS = {
    'clang -O2': CL + ['-O2'],
    'gcc -O2': GC + ['-O2'],
    'clang -O2 barrier': CL + ['-O2', '-DQLV_BARRIER'],
    'clang -O3 algebra barrier': CL + ['-O3', '-DQLV_BARRIER'] + ALG,
    'clang -O3': CL + ['-O3', '-mllvm', '-unroll-threshold=4000'],
    'gcc -O3': GC + ['-O3'],
    'clang -O2 algebra': CL + ['-O2'] + ALG,
    'gcc -O3 algebra': GC + ['-O3'] + ALG,
    'clang -O3 algebra+recip': CL + ['-O3'] + ALG + ['-freciprocal-math'],
    'gcc -O2 algebra+recip': GC + ['-O2'] + ALG + ['-freciprocal-math'],
    'gcc -O1': GC + ['-O1'],
}
def _peel(k):
    return ['-mllvm', '-unroll-threshold=20000', '-mllvm', '-unroll-force-peel-count=%d' % k, '-mllvm', '-unroll-full-max-count=64',
            '-mllvm', '-unroll-allow-loop-nests-peeling']


# loop peeling: the first k iterations of every loop become straight-line code; the rest of the loop stays, so nothing is cut off
PEEL = {'clang -O2 peel%d' % k: CL + ['-O2'] + _peel(k) + (['-DQLV_BARRIER'] if k == 3 else []) for k in (2, 3)}
TRAP = CL + ['-O2', '-fsanitize=integer-divide-by-zero', '-fsanitize-trap=all']

FAIL = re.compile(r'qlv_fail__([A-Za-z0-9]\w*?)__(\d+)__(\w*?)__E')
REACH = re.compile(r'qlv_reach__([A-Za-z0-9]\w*?)__(\d+)__(\w*)')
# ways a path can end other than by returning (allocation failure is outside the model)
ABEND = re.compile(r'^(__cxa_throw|__cxa_rethrow|_ZSt9terminatev|__clang_call_terminate|abort|exit|_exit|_Exit|quick_exit|__assert_fail'
                   r'|qlv_out_of_bounds|qlv_bad_\w+|llvm\.trap|llvm\.ubsantrap|_ZSt\d+__throw_(?!bad_alloc|length_error|bad_array_new_length)\w+)$')


LIMIT = 150
# no vector instructions (they hide equal subexpressions); after -O so that they win
NOVEC = {'clang++': ['-fno-slp-vectorize', '-fno-vectorize'], 'g++': ['-fno-tree-vectorize']}
ROUNDS = 6


class CompileError(Exception):
    pass


def _run(name, cmd, src, extra):
    try:
        p = subprocess.run(cmd + NOVEC[cmd[0]] + list(extra) + [src], capture_output=True, text=True, timeout=LIMIT)
    except subprocess.TimeoutExpired:
        return name, None, 'TIMEOUT'
    return name, (p.stdout if p.returncode == 0 else None), p.stderr


def _again(ir, k):
    """one more round of optimisation (with peeling, if k) over optimised intermediate code"""
    ir = re.sub(r', !llvm.loop !\d+', '', ir)
    try:
        p = subprocess.run(['clang', '-x', 'ir', '-O2', '-S', '-emit-llvm', '-o', '-', '-w', '-mllvm', '-inline-threshold=20000'] + DEEP + NOVEC['clang++'] + (_peel(k) if k else []) + ['-'],
                           input=ir, capture_output=True, text=True, timeout=LIMIT)
    except subprocess.TimeoutExpired:
        return None
    return p.stdout if p.returncode == 0 else None


def declared(src, extra=()):
    """obligations, requirements, may-throw set (from the preprocessed unit) and anchors '//@ ob: file :: symbol -- text'"""
    p = subprocess.run(['clang++'] + BASE + ['-E', '-P'] + list(extra) + [src], capture_output=True, text=True)
    if p.returncode:
        raise CompileError(p.stderr[:4000])
    obs = sorted(set(re.findall(r'\bqlv_ob__(\w+)\s*\(', p.stdout)))
    xs = set(re.findall(r'\bqlv_obx__(\w+)\s*\(', p.stdout))
    cs = set(re.findall(r'\bqlv_obc__(\w+)\s*\(', p.stdout))
    reqs = set()
    for f in FAIL.finditer(p.stdout):
        reqs.add((f.group(1), int(f.group(2)), f.group(3)))
    anchors = {}
    for m in re.finditer(r'^\s*//@\s*([\w*]+)\s*:\s*(.*)', open(src).read(), re.M):
        anchors[m.group(1)] = m.group(2).strip()
    return obs, reqs, xs, cs, anchors


def anchor(anchors, ob):
    if ob in anchors:
        return anchors[ob]
    best = ''
    for k, v in anchors.items():
        if k.endswith('*') and ob.startswith(k[:-1]) and len(k) > len(best):
            best = k
    return anchors.get(best, '')


def functions(ir):
    """function -> text of its body, for LLVM IR or GNU assembly"""
    fs, cur = {}, None
    llvm = 'target triple' in ir[:4000]
    for line in ir.splitlines():
        if llvm:
            m = re.match(r'define .*?@"?([\w.$]+)"?\(', line)
            if m:
                cur = m.group(1)
                fs[cur] = [line.split('@' + cur, 1)[1]]
            elif line.startswith('}'):
                cur = None
            elif cur:
                fs[cur].append(line)
        else:
            m = re.match(r'([A-Za-z_][\w.$]*):', line)
            if m:
                cur = m.group(1)
                fs.setdefault(cur, [])
            elif cur:
                s = line.lstrip()
                if s.startswith('.') and not s.startswith('.L'):
                    continue
                fs[cur].append(line)
    return {k: '\n'.join(v) for k, v in fs.items()}, llvm


def uncaught(body):
    """is there a throw in this LLVM function body that is not an invoke into a catch-all landing pad?"""
    lines = body.splitlines()
    pads = {}
    for i, l in enumerate(lines):
        m = re.match(r'([-\w.$]+):', l)
        if m:
            j = i + 1
            while j < len(lines) and not re.match(r'[-\w.$]+:', lines[j]):
                if ' landingpad ' in lines[j]:
                    k, cl = j + 1, []
                    while k < len(lines) and re.match(r'\s+(catch|cleanup|filter)', lines[k]):
                        cl.append(lines[k].strip())
                        k += 1
                    pads[m.group(1)] = 'catch ptr null' in cl
                    break
                j += 1
    for i, l in enumerate(lines):
        if re.search(r'@(__cxa_throw|__cxa_rethrow|_ZSt\d+__throw_\w+)\(', l):
            if re.search(r'_ZSt\d+__throw_(bad_alloc|length_error|bad_array_new_length|logic_error)', l):
                continue
            if 'invoke' not in l:
                return True
            m = re.search(r'unwind label %([-\w.$]+)', l + (lines[i + 1] if i + 1 < len(lines) else ''))
            if not m or not pads.get(m.group(1)):
                return True
    return False


_REF = re.compile(r'@"?([\w.$]+)"?')


def inspect(ir, cs=()):
    """-> obligations present, residual fails, reach markers, {ob: abnormal exits}"""
    fs, llvm = functions(ir)
    refs = {}
    for f, body in fs.items():
        if llvm:
            refs[f] = set(_REF.findall(body))
        else:
            refs[f] = set(re.findall(r'[A-Za-z_][\w.$]+', re.sub(r'#.*', '', body)))
    obs, rem, reach, abend = set(), set(), set(), {}
    alias = dict(re.findall(r'^@([\w.$]+) = .*alias .*@([\w.$]+)\s*$', ir, re.M)) if llvm else dict(re.findall(r'\.set\s+([\w.$]+),\s*([\w.$]+)', ir))
    for f in list(fs) + list(alias):
        if not f.startswith('qlv_ob__'):
            continue
        ob = f[len('qlv_ob__'):]
        obs.add(ob)
        todo, seen = [alias.get(f, f)], set()
        while todo:
            g = todo.pop()
            if g in seen or g not in fs:
                continue
            seen.add(g)
            for m in FAIL.finditer(fs[g]):
                rem.add((ob, int(m.group(2)), m.group(3), m.group(1)))
            for m in REACH.finditer(fs[g]):
                reach.add((m.group(1), int(m.group(2)), m.group(3)))
            if ob in cs and (not llvm or uncaught(fs[g])):
                abend.setdefault(ob, set()).add('an exception escapes')
            for r in refs[g]:
                r = re.sub(r'@.*', '', r)
                if ABEND.match(r) and not (ob in cs and re.match(r'__cxa_|_ZSt|__clang_call_terminate', r)):
                    abend.setdefault(ob, set()).add(r)
                todo.append(alias.get(r, r))
    return obs, rem, reach, abend


def overflow(out):
    """obligations from which the capacity of a model can be exceeded"""
    fs, llvm = functions(out)
    if 'qlv_model_overflow' not in out:
        return set()
    call = re.compile(r'(call|invoke|jmp)\b.*qlv_model_overflow')
    refs = {f: set(_REF.findall(b)) if llvm else set(re.findall(r'[A-Za-z_][\w.$]+', re.sub(r'#.*', '', b))) for f, b in fs.items()}
    hit = {f for f, b in fs.items() if call.search(b)}
    res = set()
    for f in fs:
        if f.startswith('qlv_ob__'):
            todo, seen = [f], set()
            while todo:
                g = todo.pop()
                if g in seen or g not in fs:
                    continue
                seen.add(g)
                if g in hit:
                    res.add(f)
                    break
                todo.extend(re.sub(r'@.*', '', r) for r in refs[g])
    return res


# ---- flat mode: everything an obligation calls is inlined into it before any optimisation, one obligation at a time
FRONT = ['clang++'] + BASE + ['-O2', '-fcx-limited-range', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-o', '-']
FLAT = {'flat': []}
FLAT_ROUNDS = 8
OPT = ['opt', '-S', '-vectorize-slp=false', '-vectorize-loops=false'] + [x for x in DEEP if x != '-mllvm']


def front(src, extra, flags):
    """unoptimised intermediate code of the unit in which every function but the obligations must be inlined"""
    p = subprocess.run(FRONT + list(flags) + list(extra) + [src], capture_output=True, text=True, timeout=LIMIT)
    if p.returncode:
        return None, p.stderr
    out = []
    for l in p.stdout.splitlines():
        if l.startswith('define ') and '@qlv_ob' not in l:
            k = len(l)
            for w in (' comdat', ' align ', ' personality ', ' section ', ' prefix ', ' gc ', ' {'):
                i = l.rfind(w)
                if i > l.rfind(')') and i != -1 or w in (' personality ', ' {') and i != -1:
                    k = min(k, i)
            l = l[:k] + ' alwaysinline' + l[k:]
        elif re.match(r'declare .*@__cxa_(throw|rethrow|begin_catch|end_catch|allocate_exception|free_exception)\(', l):
            # the exception machinery touches none of the unit's variables
            l = l.replace('declare ptr @__cxa_allocate', 'declare noalias ptr @__cxa_allocate') + ' memory(argmem: read, inaccessiblemem: readwrite)'
            if 'catch' in l:
                l = l.replace('argmem: read, ', '') + ' nounwind'   # no exception here has a throwing destructor
        elif re.match(r'declare .*@_ZNSt\d+(runtime_error|logic_error|invalid_argument|out_of_range)[CD][12]E\w+\(', l):
            l += ' memory(argmem: readwrite, inaccessiblemem: readwrite)'
        elif l.startswith('@llvm.used') or l.startswith('@llvm.compiler.used'):
            continue
        elif l.startswith('attributes #'):
            l = re.sub(r'\b(noinline|optnone|inlinehint)\b', '', l)
        out.append(l)
    return _typed('\n'.join(out) + '\n'), ''


def _typed(ir):
    """a handler for a model exception (a type of the unit whose name contains qlv_caught) takes every exception that gets to it: in
       the try blocks concerned nothing else is thrown"""
    if 'qlv_caught' not in ir:
        return ir
    ir = re.sub(r'^( +)catch ptr @_ZTI\w*qlv_caught\w*$', r'\1catch ptr null', ir, flags=re.M)
    for x in set(re.findall(r'(%[-\w.$]+) = (?:tail )?call i32 @llvm\.eh\.typeid\.for(?:\.p0)?\(ptr @_ZTI\w*qlv_caught', ir)):
        ir = re.sub(r'(call i32 @llvm\.eh\.typeid\.for(?:\.p0)?\(ptr @_ZTI\w*qlv_caught\w*\)[^\n]*\n +%%[-\w.$]+ = icmp eq i32) %%[-\w.$]+, (%s)$' % re.escape(x), r'\1 \2, \2', ir, flags=re.M)
    return ir


def _cap():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def _opt(ir, passes, extra):
    try:
        p = subprocess.run(OPT + ['-passes=' + passes] + extra + ['-'], input=ir, capture_output=True, text=True, timeout=LIMIT, preexec_fn=_cap)
    except subprocess.TimeoutExpired:
        return None
    if p.returncode < 0 or 'out of memory' in p.stderr or 'bad_alloc' in p.stderr:
        return None
    if p.returncode:
        raise CompileError('opt: ' + p.stderr[:2000])
    return p.stdout


def cases(ir, ob):
    """the case splits of an obligation: one (function, truth value) list per case"""
    m = re.search(r'^define [^\n]*@qlv_ob__%s\(.*?^}' % re.escape(ob), ir, re.S | re.M)
    ks = sorted(set(re.findall(r'@qlv_case_(\d+)\(', m.group(0)))) if m else []
    return [list(zip(ks, bits)) for bits in itertools.product('01', repeat=len(ks))]


def flat(ir, ob, case, x, c, rounds=FLAT_ROUNDS, peel=1, algebra=True):
    """-> what remains of one case of an obligation after the best round, rounds used"""
    for k, b in case:
        ir = re.sub(r'^declare [^\n]*@qlv_case_%s\(\)[^\n]*$' % k, 'define zeroext i1 @qlv_case_%s() alwaysinline nounwind {\n  ret i1 %s\n}' % (k, b), ir, flags=re.M)
    return flat1(ir, ob, x, c, rounds, peel, algebra)


JOB = {}


def _task(k, ob, case, x, rounds):
    """one case under one configuration (runs in a worker process; the intermediate code is inherited)"""
    try:
        return flat(JOB['irs'][k], ob, case, x, JOB['cs'], rounds)
    except CompileError as e:
        return e, 0


def _words(ir):
    """block copies of a few words written out word by word (load forwarding does not look through a block copy)"""
    n = [0]

    def f(m):
        ind, d, s, size = m.group(1), m.group(2), m.group(3), int(m.group(4))
        if size % 8 or not 8 <= size <= 512:
            return m.group(0)
        n[0] += 1
        k = size // 8
        b = '%%qlvw.%d.' % n[0]
        o = []
        for i in range(k):
            o += ['%s%ss%d = getelementptr i8, ptr %s, i64 %d' % (ind, b, i, s, 8 * i), '%s%sv%d = load i64, ptr %ss%d, align 1' % (ind, b, i, b, i)]
        for i in range(k):
            o += ['%s%sd%d = getelementptr i8, ptr %s, i64 %d' % (ind, b, i, d, 8 * i), '%sstore i64 %sv%d, ptr %sd%d, align 1' % (ind, b, i, b, i)]
        return '\n'.join(o)
    ir = re.sub(r'%qlvw\.', '%qlvx.', ir)
    return re.sub(r'^( +)(?:tail )?call void @llvm\.mem(?:cpy|move)\.p0\.p0\.i64\(ptr (?:[a-z_]+(?:\(\d+\))? |align \d+ )*([%@][-\w.$]+|[%@]"[^"]+"), ptr (?:[a-z_]+(?:\(\d+\))? |align \d+ )*([%@][-\w.$]+|[%@]"[^"]+"), i64 (\d+), i1 false\)[^\n]*$',
                  f, ir, flags=re.M)


LINES = 40000


def flat1(ir, ob, x, c, rounds, peel, algebra):
    """all loops peeled together; if that leaves something over, loop nests peeled one at a time"""
    t0 = time.time()
    r, n = flat2(ir, ob, x, c, rounds, peel, algebra, False)
    if os.environ.get('QLV_TIME'):
        print('TIME', ob, 'all', n, '%.1f' % (time.time() - t0), 'done' if r is not None and not r[1] and (x or not r[3]) and not r[4] else 'left', flush=True)
    t0 = time.time()
    if r is not None and not r[1] and (x or not r[3]) and not r[4]:
        return r, n
    q, m = flat2(ir, ob, x, c, 3 * rounds, peel, algebra, True)
    if os.environ.get('QLV_TIME'):
        print('TIME', ob, 'aim', m, '%.1f' % (time.time() - t0), flush=True)
    if r is None or q is None:
        return (q if r is None else r), n + m
    return (r[0], r[1] & q[1], r[2], {k: v for k, v in r[3].items() if k in q[3]}, r[4] & q[4]), n + m


def flat2(ir, ob, x, c, rounds, peel, algebra, aim):
    pe = [a for a in _peel(peel) if a != '-mllvm']
    words = _words if aim else (lambda t: t)
    out = _opt(words(ir), 'internalize,globaldce,always-inline,globaldce,default<O2>', ['-internalize-public-api-list=qlv_ob__' + ob])
    res, old, folded = None, None, False
    for n in range(rounds + 1):
        if out is None:
            return res, n
        i = inspect(out, c) + (overflow(out),)
        if res is None:
            res = i
        else:
            res = (i[0], res[1] & i[1], i[2], {k: v for k, v in res[3].items() if k in i[3]}, res[4] & i[4])
        if not res[1] and (x or not res[3]) and not res[4]:
            return res, n
        body = functions(out)[0].get('qlv_ob__' + ob, '')
        size = body.count('\n')
        out = re.sub(r', !llvm.loop !\d+', '', out)
        k = 0
        if algebra and (aim or n >= 2 or size < 300):
            out, k = ring.number(out, 'qlv_ob__' + ob)
            out, k2 = ring.conditions(out, 'qlv_ob__' + ob)
            k += k2
        if os.environ.get('QLV_TRACE'):
            print(ob, aim, n, size, k, flush=True)
        if n == rounds or size > (LINES if aim else LINES // 3) or (body == old and not k):
            if os.environ.get('QLV_KEEP'):
                open(os.environ['QLV_KEEP'] + '/' + ob + '.ll', 'w').write(out)
            return res, n
        old = body
        if aim:
            out = ring.aim(out, 'qlv_ob__' + ob)
            if out is None:
                return res, n
        out = _opt(words(out), 'always-inline,default<O2>', pe)
    return res, n


def analyse_flat(src, extra=(), jobs=8, thorough=False):
    obs, reqs, xs, cs, anchors = declared(src, extra)
    res = dict(src=src, obs=obs, reqs=reqs, anchors=anchors, discharged={}, undischarged=[], unreached=[], abend={}, static_fail=[], configs=[], traps=set())
    irs = {}
    only = os.environ.get('QLV_OB')
    if only:
        obs = res['obs'] = [o for o in obs if re.fullmatch(only, o)]
        res['reqs'] = reqs = {q for q in reqs if q[0] in obs}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        fs = {k: ex.submit(front, src, extra, f) for k, f in FLAT.items()}
        fs['reach'] = ex.submit(front, src, extra, ['-DQLV_REACH_PASS', '-fsanitize=integer-divide-by-zero', '-fsanitize-trap=all'])
        for k, f in fs.items():
            ir, err = f.result()
            if ir is None:
                sf = sorted(set(re.findall(r'QLV\[(\w+)\]:?\s*([^"\n]*)', err)))
                if sf:
                    res['static_fail'] = sf
                    return res
                raise CompileError('%s: %s' % (k, err[:4000]))
            irs[k] = ir

    JOB.update(irs=irs, cs=cs)
    with concurrent.futures.ProcessPoolExecutor(jobs, mp_context=multiprocessing.get_context('fork')) as ex:
        def ask(k, ob, x, rounds, a=0, z=None):
            return [ex.submit(_task, k, ob, cs_, x, rounds) for cs_ in cases(irs[k], ob)[a:z]]

        def merge(fs):
            tot, nn = None, 0
            for f in fs:
                r, n = f.result()
                if isinstance(r, Exception):
                    raise r
                if r is None:
                    return None, n
                nn = max(n, nn)
                tot = r if tot is None else (tot[0], tot[1] | r[1], tot[2] | r[2], {**tot[3], **r[3]}, tot[4] | r[4])
            return tot, nn
        names = list(FLAT)
        of = {o: ask(names[0], o, o in xs, FLAT_ROUNDS) for o in obs}
        vf = {o: ask('reach', o, True, 5, 0, 1) for o in obs}
        bad, confs = set(), {}
        for ob in obs:
            left = None
            for k in names:
                r, n = merge(of[ob] if k == names[0] else ask(k, ob, ob in xs, FLAT_ROUNDS))
                if r is None:
                    continue
                if left is None:
                    left = [set(r[1]), dict(r[3]), set(r[4])]
                else:
                    left = [left[0] & r[1], {q: v for q, v in left[1].items() if q in r[3]}, left[2] & r[4]]
                if ob in xs:
                    left[1] = {}
                if not left[0] and not left[1] and not left[2]:
                    break
            if left is None:
                raise CompileError('%s: the analysis of obligation %s did not finish' % (src, ob))
            confs.setdefault(k, 0)
            confs[k] += 1
            if os.environ.get('LATE'):
                print('   ', ob, k, 'round', n)
            if left[0]:
                res['undischarged'] += sorted(left[0])
                bad.add(ob)
            elif left[1]:
                res['abend'].update({q: sorted(v) for q, v in left[1].items()})
                bad.add(ob)
            elif left[2]:
                raise CompileError('obligation %s: the code uses more elements than the models of this unit hold' % ob)
        res['configs'] = ['%s (%d obligations)' % kv for kv in confs.items()]
        for o in obs:
            if o in bad:
                for f in vf[o]:
                    f.cancel()
                continue
            need = {q for q in reqs if q[0] == o and q[2] != 'never'}
            a, z = 1, 9             # one case usually shows every requirement reachable; the others only if it does not
            while need and vf[o]:
                need -= merge(vf[o])[0][2]
                vf[o] = ask('reach', o, True, 5, a, z) if need else []
                a, z = z, z + 8
            res['unreached'] += sorted(need)
    return res


def analyse(src, extra=(), jobs=8, thorough=False):
    if re.search(r'^//@@ flat', open(src).read(), re.M):
        return analyse_flat(src, extra, jobs, thorough)
    obs, reqs, xs, cs, anchors = declared(src, extra)
    names = list(CONFIGS)
    res = dict(src=src, obs=obs, reqs=reqs, anchors=anchors, discharged={}, undischarged=[], unreached=[], abend={}, static_fail=[], configs=[], traps=set())
    state = dict(left=None, ab=None, seen=set(), over=None)

    def take(r):
        name, out, err = r
        if out is None and err == 'TIMEOUT' and name != names[0]:
            return
        if out is None:
            sf = sorted(set(re.findall(r'QLV\[(\w+)\]:?\s*([^"\n]*)', err)))
            if sf:
                res['static_fail'] = sf
                return
            raise CompileError('%s: %s' % (name, err[:4000]))
        res['configs'].append(name)
        o, rem, reach, ab = inspect(out, cs)
        ov = overflow(out)
        state['seen'] |= o
        if state['left']:
            for q in state['left'] - rem:
                res['discharged'].setdefault(q, name)
        ab = {k: v for k, v in ab.items() if k not in xs}
        state['over'] = ov if state['over'] is None else state['over'] & ov
        state['left'] = rem if state['left'] is None else state['left'] & rem
        state['ab'] = ab if state['ab'] is None else {k: v for k, v in state['ab'].items() if k in ab}

    def rounds(k):
        cfg = 'clang -O2 peel%d' % k
        r = _run(cfg, PEEL[cfg], src, extra)
        got = [r]
        ir = r[1]
        for n in range(1, ROUNDS):
            if ir is None:
                break
            _, rem, _, ab = inspect(ir, cs)
            if not rem and not {x for x in ab if x not in xs} and not overflow(ir):
                break
            ir = _again(ir, k)
            if ir is not None:
                got.append(('%s round %d' % (cfg, n + 1), ir, ''))
        return got

    def twice(n):
        r = _run(n, CONFIGS[n], src, extra)
        if r[1] is None or not n.startswith('clang') or 'barrier' in n:
            return [r]
        _, rem, _, ab = inspect(r[1], cs)
        if not rem and not {x for x in ab if x not in xs} and not overflow(r[1]):
            return [r]
        ir = _again(r[1], 0)
        return [r] if ir is None else [r, (n + ' round 2', ir, '')]

    def open_():
        return state['left'] or state['ab'] or state['over']

    peel_first = bool(re.search(r'^//@@ peel', open(src).read(), re.M))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        ft = ex.submit(_run, 'trap', TRAP, src, extra)
        fr = ex.submit(_run, 'reach', CONFIGS[names[0]] + ['-DQLV_REACH_PASS'], src, extra)
        take(ex.submit(_run, names[0], CONFIGS[names[0]], src, extra).result())
        if peel_first and not res['static_fail'] and open_():
            for f in [ex.submit(rounds, k) for k in (2, 3)]:
                for r in f.result():
                    take(r)
        if not res['static_fail'] and (thorough or open_()):
            for f in [ex.submit(twice, n) for n in names[1:]]:
                for r in f.result():
                    take(r)
        if not peel_first and not res['static_fail'] and open_():
            for f in [ex.submit(rounds, k) for k in (2, 3)]:
                for r in f.result():
                    take(r)
        _, out, err = ft.result()
        _, rout, rerr = fr.result()
    if res['static_fail']:
        return res
    missing = set(obs) - state['seen']
    if missing:
        raise CompileError('obligations missing from the compiled unit: %s' % sorted(missing))
    res['undischarged'] = sorted(state['left'])
    if state['over'] and not state['left'] and not state['ab']:
        raise CompileError('the code uses more elements than the vector model of this unit holds')
    res['abend'] = {k: sorted(v) for k, v in state['ab'].items()}
    bad = {q[3] for q in res['undischarged']}
    if rout is None:
        raise CompileError('reach: ' + rerr[:4000])
    reach = inspect(rout)[2]
    # a requirement counts only if control can get behind it
    res['unreached'] = sorted(q for q in reqs if q[2] != 'never' and q not in reach and q[0] not in bad)
    if out is None:
        raise CompileError('trap: ' + err[:4000])
    fs, _ = functions(out)
    for f, body in fs.items():
        if f.startswith('qlv_ob__') and re.search(r'call .*llvm\.ubsantrap', body):
            res['traps'].add(f[len('qlv_ob__'):])
    return res


def violations(res):
    """[(obligation, line, label, kind)]"""
    out = []
    for ob, msg in res['static_fail']:
        out.append((ob, 0, msg, 'static_assert'))
    for ob, line, label, _ in res['undischarged']:
        out.append((ob, line, label, 'requirement not discharged'))
    for ob, line, label in res['unreached']:
        out.append((ob, line, label, 'control never gets past the code under this requirement'))
    for ob, v in sorted(res['abend'].items()):
        if ob not in {x[0] for x in out}:
            out.append((ob, 0, ','.join(v), 'a path ends abnormally'))
    for ob in sorted(res['traps']):
        out.append((ob, 0, '', 'integer division by zero possible'))
    return out


if __name__ == '__main__':
    for src in sys.argv[1:]:
        try:
            r = analyse(src)
        except CompileError as e:
            print(src, 'COMPILE ERROR', str(e)[:3000])
            continue
        print(os.path.basename(src), len(r['obs']), 'obligations', len(r['reqs']), 'requirements', len(r['configs']), 'configs',
              '; without anchor:', [o for o in r['obs'] if not anchor(r['anchors'], o)])
        for v in violations(r)[:12]:
            print('   VIOL', v)
        if os.environ.get('LATE'):
            for k, v in r['discharged'].items():
                if v != 'clang -O2':
                    print('   ', k, v)

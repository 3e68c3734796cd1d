"""Value numbering modulo the laws of real arithmetic.

Works on one function of optimised LLVM IR: every floating-point value gets a canonical form (a polynomial with rational
coefficients over opaque atoms: parameters, loads, results of pure calls, reciprocals).  A value whose form equals that of a
dominating value is replaced by it, a value with a constant form by the constant, and a comparison by an equal dominating one.
What is identified this way is equal for all real arguments; rounding, overflow and signed zeros are outside the comparison."""
import re, struct
from fractions import Fraction

LIMIT = 400          # terms
SIZE = 4000          # blocks
PURE = re.compile(r'(qlv_uf_\w+|llvm\.(fabs|sqrt|cos|sin|exp|log|pow|floor|ceil|trunc|round|minnum|maxnum|copysign|powi)\.[\w.]+|sqrt|fabs|cos|sin|exp|log|pow|hypot|tan|atan2?|floor|ceil)$')


def const(tok):
    if re.fullmatch(r'0x[0-9A-Fa-f]{16}', tok):
        v = struct.unpack('>d', bytes.fromhex(tok[2:]))[0]
    elif re.fullmatch(r'-?\d+\.\d+e[+-]\d+', tok):
        v = float(tok)
    else:
        return None
    if v != v or v in (float('inf'), float('-inf')):
        return None
    return Fraction(v)


def literal(fr):
    v = float(fr)
    if Fraction(v) != fr:
        return None
    return '0x' + struct.pack('>d', v).hex().upper()


# polynomial: dict monomial -> Fraction; monomial: sorted tuple of (atom, exponent), exponent may be negative
def add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def mono(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items()))


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mono(m, n)
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0:
                del r[k]
    return r


def key(p):
    return tuple(sorted(p.items()))


class Forms:
    def __init__(self):
        self.atoms, self.absarg = {}, {}

    def atom(self, k):
        if k not in self.atoms:
            self.atoms[k] = len(self.atoms)
        return {((self.atoms[k], 1),): Fraction(1)}

    def squares(self, p):
        """|x|^2 = x^2, for x a monomial"""
        if not self.absarg or not any(a in self.absarg and abs(e) >= 2 for m in p for a, e in m):
            return p
        r = {}
        for m, c in p.items():
            q = {(): c}
            for a, e in m:
                k = abs(e) // 2 * 2 * (1 if e > 0 else -1) if a in self.absarg else 0
                if k:
                    n, d = self.absarg[a]
                    q = mul(q, {tuple((x, f * k) for x, f in n): d ** k})
                if e != k:
                    q = mul(q, {((a, e - k),): Fraction(1)})
            r = add(r, q)
        return r

    def inv(self, p):
        if not p:
            return self.atom(('inv0',))
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((a, -e) for a, e in m): 1 / c}
        # normalise by the leading coefficient and the common monomial content
        lead = sorted(p)[0]
        c = p[lead]
        a = self.atom(('sum', key({m: v / c for m, v in p.items()})))
        (m, _), = a.items()
        return {tuple((x, -e) for x, e in m): 1 / c}

    def as_atom_of_sum(self, p):
        """the sum itself as an atom if its reciprocal was used (so that (a+b) * 1/(a+b) cancels)"""
        if len(p) < 2:
            return None
        lead = sorted(p)[0]
        k = ('sum', key({m: v / p[lead] for m, v in p.items()}))
        if k in self.atoms:
            return {((self.atoms[k], 1),): p[lead]}
        return None


DEF = re.compile(r'\s+(%[\w.$"-]+) = (.*)')
TOK = r'(%[\w.$"-]+|0x[0-9A-Fa-f]{16}|-?\d+\.\d+e[+-]\d+|undef|poison|[\w@.$]+)'
FL = r'(?:(?:reassoc|nnan|ninf|nsz|arcp|contract|afn|fast)\s+)*'
BIN = re.compile(r'(fadd|fsub|fmul|fdiv) ' + FL + r'double ' + TOK + ', ' + TOK)
NEG = re.compile(r'fneg ' + FL + r'double ' + TOK)
SEL = re.compile(r'select ' + FL + r'i1 ' + TOK + r', double ' + TOK + ', double ' + TOK)
CMP = re.compile(r'fcmp ' + FL + r'(\w+) double ' + TOK + ', ' + TOK)
CALL = re.compile(r'(?:tail |musttail |notail )?call ' + FL + r'(?:\w+ )*double @([\w.$]+)\((.*?)\)(?: #\d+)?')
CONV = re.compile(r'((?:ui|si)tofp \w+ ' + TOK + r' to double)')
SWAP = {'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge', 'oge': 'ole', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def blocks(body):
    bs, cur, order = {}, 'entry', ['entry']
    bs[cur] = []
    lines = body.splitlines()
    for i, l in enumerate(lines):
        m = re.match(r'([\w.$"-]+):', l)
        if m and not any(bs.values()) and cur == 'entry':
            continue                       # a label on the entry block (no branch leads there)
        if m:
            cur = m.group(1)
            bs[cur] = []
            order.append(cur)
        else:
            bs[cur].append(i)
    return lines, bs, order


class Dom:
    def __init__(self, idom, rpo):
        self.idom, kids = idom, {}
        for b in rpo[1:]:
            kids.setdefault(idom[b], []).append(b)
        self.depth, self.tin, self.tout, self.pre, t = {'entry': 0}, {}, {}, [], 0
        stack = [('entry', False)]
        while stack:
            b, out = stack.pop()
            t += 1
            if out:
                self.tout[b] = t
                continue
            self.tin[b] = t
            self.pre.append(b)
            stack.append((b, True))
            for k in kids.get(b, ()):
                self.depth[k] = self.depth[b] + 1
                stack.append((k, False))

    def over(self, a, b):
        return self.tin[a] <= self.tin[b] and self.tout[b] <= self.tout[a]


def idoms(lines, bs, order, entry_alias):
    succ = {}
    for b in order:
        t = '\n'.join(lines[i] for i in bs[b])
        succ[b] = [x for x in re.findall(r'label %([\w.$"-]+)', t)]
    preds = {b: [] for b in order}
    for b in order:
        for s in succ[b]:
            if s in preds:
                preds[s].append(b)
    # reverse post-order, then the usual iteration on immediate dominators
    rpo, state, stack = [], {}, [('entry', iter(succ['entry']))]
    state['entry'] = 1
    while stack:
        b, it = stack[-1]
        for x in it:
            if x in preds and x not in state:
                state[x] = 1
                stack.append((x, iter(succ[x])))
                break
        else:
            rpo.append(b)
            stack.pop()
    rpo.reverse()
    num = {b: i for i, b in enumerate(rpo)}
    idom = {'entry': 'entry'}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            n = None
            for p in preds[b]:
                if p not in idom:
                    continue
                if n is None:
                    n = p
                    continue
                x = p
                while x != n:
                    while num[x] > num[n]:
                        x = idom[x]
                    while num[n] > num[x]:
                        n = idom[n]
            if idom.get(b) != n:
                idom[b] = n
                ch = True
    dom = Dom(idom, rpo)
    return dom, succ


def number(ir, func, forms=None):
    """-> ir with equal values of `func` merged, number of replacements"""
    m = re.search(r'(define [^\n]*@' + re.escape(func) + r'\([^\n]*\{\n)(.*?)(\n\}\n)', ir, re.S)
    if not m:
        return ir, 0
    lines, bs, order = blocks(m.group(2))
    if len(order) > SIZE:
        return ir, 0
    dom, succ = idoms(lines, bs, order, None)
    # order blocks so that dominators come first
    order = dom.pre
    F = Forms()
    form, table, repl = {}, {}, {}

    def val(tok):
        c = const(tok)
        if c is not None:
            return {(): c} if c else {}
        if tok in form:
            return form[tok]
        return F.atom(tok)

    def seen(k, b, name):
        for bb, n in table.get(k, ()):
            if dom.over(bb, b):
                return n
        table.setdefault(k, []).append((b, name))
        return None
    # pass 1: forms (dominating definitions come first, so operands are known); pass 2 with all reciprocals known
    for attempt in (1, 2):
        form.clear()
        table.clear()
        repl.clear()
        for b in order:
            for i in bs[b]:
                d = DEF.match(lines[i])
                if not d:
                    continue
                n, rhs = d.group(1), d.group(2)
                p = None
                x = BIN.match(rhs)
                if x:
                    a, c = val(x.group(2)), val(x.group(3))
                    op = x.group(1)
                    if op == 'fadd':
                        p = add(a, c)
                    elif op == 'fsub':
                        p = add(a, c, -1)
                    elif op == 'fmul':
                        if len(a) * len(c) <= LIMIT:
                            aa, cc = a, c
                            if any(e < 0 for mm in a for _, e in mm):
                                cc = F.as_atom_of_sum(c) or c
                            if any(e < 0 for mm in c for _, e in mm):
                                aa = F.as_atom_of_sum(a) or a
                            p = mul(aa, cc)
                    else:
                        iv = F.inv(c)
                        aa = F.as_atom_of_sum(a)
                        if aa is not None and len(c) > 1 and key(F.inv(c)) and list(aa)[0][0][0] == list(iv)[0][0][0]:
                            p = mul(aa, iv)
                        elif len(a) <= LIMIT:
                            p = mul(a, iv)
                    if p is not None and len(p) > LIMIT:
                        p = None
                    if p is not None:
                        p = F.squares(p)
                elif NEG.match(rhs):
                    p = add({}, val(NEG.match(rhs).group(1)), -1)
                elif SEL.match(rhs):
                    x = SEL.match(rhs)
                    a, c = val(x.group(2)), val(x.group(3))
                    p = a if key(a) == key(c) else F.atom(('select', repl.get(x.group(1), x.group(1)), key(a), key(c)))
                elif CALL.match(rhs):
                    x = CALL.match(rhs)
                    if PURE.match(x.group(1)):
                        args = []
                        for t in re.split(r',\s*', x.group(2)):
                            w = t.split()
                            if not w:
                                continue
                            args.append(key(val(w[-1])) if w[0] == 'double' else repl.get(w[-1], w[-1]))
                        if x.group(1).startswith('llvm.fabs') or x.group(1) == 'fabs':
                            q = val(x.group(2).split()[-1])
                            if q and q[sorted(q)[0]] < 0:
                                args = [key(add({}, q, -1))]
                        p = F.atom(('call', x.group(1), tuple(args)))
                        if (x.group(1).startswith('llvm.fabs') or x.group(1) == 'fabs') and len(args[0]) == 1:
                            F.absarg[list(p)[0][0][0]] = args[0][0]
                elif CONV.match(rhs):
                    p = F.atom(('conv', CONV.match(rhs).group(1)))
                elif CMP.match(rhs):
                    x = CMP.match(rhs)
                    pr, a, c = x.group(1), val(x.group(2)), val(x.group(3))
                    if pr in ('oeq', 'ueq', 'one', 'une') and key(a) == key(c) and x.group(2) != x.group(3):
                        repl[n] = '\n' + pr              # marked below
                        continue
                    if pr in SWAP and key(a) == key(c) and x.group(2) != x.group(3):
                        repl[n] = '\n' + pr
                        continue
                    diff = add(a, c, -1)
                    k = key(diff)
                    if diff:
                        lead = diff[sorted(diff)[0]]
                        if pr in ('oeq', 'ueq', 'one', 'une'):
                            k = key({mm: v / lead for mm, v in diff.items()})
                        elif pr in SWAP:
                            k = key({mm: v / abs(lead) for mm, v in diff.items()})
                            if lead < 0:
                                pr, k = SWAP[pr], key({mm: v / -abs(lead) for mm, v in diff.items()})
                        else:
                            continue
                        s = seen(('cmp', pr, k), b, n)
                        if s:
                            repl[n] = s
                    continue
                if p is None:
                    continue
                form[n] = p
                if not p or list(p) == [()]:
                    lit = literal(p.get((), Fraction(0)))
                    if lit:
                        repl[n] = lit
                        continue
                if len(p) == 1:
                    (mm, c), = p.items()
                    if c == 1 and len(mm) == 1 and mm[0][1] == 1:
                        k0 = [k for k, v in F.atoms.items() if v == mm[0][0]][0]
                        if isinstance(k0, str) and k0.startswith('%') and k0 != n:
                            repl[n] = k0           # the value is an earlier atom (it dominates: it is an operand)
                            continue
                s = seen(key(p), b, n)
                if s:
                    repl[n] = s
        if attempt == 1 and not any(k[0] == 'sum' for k in F.atoms if isinstance(k, tuple)):
            break
    if forms is not None:
        forms.update(val=val, F=F, lines=lines, bs=bs, order=order, dom=dom, span=(m.start(2), m.end(2)))
        return ir, 0
    cnt = 0
    # comparisons of equal values: decided by orderedness of the right operand
    for i, l in enumerate(lines):
        d = DEF.match(l)
        if d and repl.get(d.group(1), '').startswith('\n'):
            pr = repl.pop(d.group(1))[1:]
            x = CMP.match(d.group(2))
            new = {'oeq': 'ord', 'oge': 'ord', 'ole': 'ord', 'ueq': 'true', 'uge': 'true', 'ule': 'true', 'one': 'false', 'ogt': 'false', 'olt': 'false', 'une': 'uno', 'ugt': 'uno', 'ult': 'uno'}[pr]
            t = x.group(2) if const(x.group(3)) is not None else x.group(3)
            lines[i] = '  %s = fcmp %s double %s, %s' % (d.group(1), new, t, t)
            cnt += 1
    if repl:
        def fin(t):
            k = 0
            while t in repl and k < 1000:
                t = repl[t]
                k += 1
            return t
        pat = re.compile(r'%[\w.$"-]+')
        for i, l in enumerate(lines):
            d = DEF.match(l)
            head, tail = ('  ' + d.group(1) + ' = ', d.group(2)) if d else ('', l)

            def sub(mm):
                nonlocal cnt
                t = mm.group(0)
                if t in repl:
                    cnt += 1
                    return fin(t)
                return t
            lines[i] = head + pat.sub(sub, tail)
    body = '\n'.join(lines)
    return ir[:m.start(2)] + body + ir[m.end(2):], cnt


# ---- conditions implied by the conditions that dominate them
SETS = {'oeq': 'E', 'ogt': 'G', 'oge': 'GE', 'olt': 'L', 'ole': 'LE', 'one': 'LG', 'ord': 'LEG', 'ueq': 'EU', 'ugt': 'GU', 'uge': 'GEU', 'ult': 'LU', 'ule': 'LEU', 'une': 'LGU', 'uno': 'U'}
FLIP = {'L': 'G', 'G': 'L', 'E': 'E', 'U': 'U'}
INF = {'0x7FF0000000000000': float('inf'), '0xFFF0000000000000': float('-inf')}
BOOL2 = re.compile(r'(and|or|xor) (?:disjoint )?i1 ([%\w.$"-]+), ([%\w.$"-]+)')
BSEL = re.compile(r'select i1 ([%\w.$"-]+), i1 ([%\w.$"-]+), i1 ([%\w.$"-]+)')
BR = re.compile(r'\s+br i1 ([%\w.$"-]+), label %([\w.$"-]+), label %([\w.$"-]+)')
ASM = re.compile(r'.*call void @llvm\.assume\(i1 (?:noundef )?([%\w.$"-]+)\)')


def nan(f):
    """what decides whether a value is a number: the operands it is made of (up to overflow)"""
    return frozenset((a, e > 0) for m, _ in f for a, e in m)


class Known:
    """what the conditions on the way to a block say"""
    def __init__(self, env, parent=None):
        self.env = env
        self.truth = dict(parent.truth) if parent else {}
        self.rng = dict(parent.rng) if parent else {}        # form -> (lo, lo strict, hi, hi strict, excluded points)
        self.notnan = set(parent.notnan) if parent else set()
        self.isnan = set(parent.isnan) if parent else set()
        self.pend = list(parent.pend) if parent else []

    def range(self, P):
        r = self.rng.get(P)
        if r is None:
            r = (float('-inf'), False, float('inf'), False, frozenset())
            if P in self.env.nonneg:
                r = (0, False, float('inf'), False, frozenset())
        return r

    def outcomes(self, cmp):
        P, c, fa, fb = cmp
        lo, ls, hi, hs, ex = self.range(P)
        o = set()
        if nan(P) in self.isnan:
            return {'U'}
        if lo < c:
            o.add('L')
        if hi > c:
            o.add('G')
        if (lo < c or lo == c and not ls) and (hi > c or hi == c and not hs) and c not in ex:
            o.add('E')
        if not self.ordered(P, fa, fb):
            o.add('U')
        return o

    def ordered(self, P, fa, fb):
        return nan(P) in self.notnan or all(f is None or nan(f) in self.notnan for f in (fa, fb))

    def mark(self, f):
        if f is None or nan(f) in self.notnan:
            return
        self.notnan.add(nan(f))
        if f in self.env.absof:
            self.mark(self.env.absof[f])
        for g in self.env.absby.get(f, ()):
            self.notnan.add(nan(g))

    def learn(self, cmp, s):
        P, c, fa, fb = cmp
        if 'U' in s:
            if not self.ordered(P, fa, fb):
                if s == {'U'}:
                    self.isnan.add(nan(P))
                return
        else:
            self.mark(fa)
            self.mark(fb)
            self.notnan.add(nan(P))
        lo, ls, hi, hs, ex = self.range(P)
        s = set(s) - {'U'}
        if 'L' not in s and c >= lo:
            lo, ls = c, ('E' not in s) or (ls and lo == c)
        if 'G' not in s and c <= hi:
            hi, hs = c, ('E' not in s) or (hs and hi == c)
        if 'E' not in s:
            ex = ex | {c}
        self.rng[P] = (lo, ls, hi, hs, ex)

    def ev(self, t, depth=0):
        if t in ('true', 'false'):
            return t == 'true'
        if t in self.truth:
            return self.truth[t]
        if depth > 12:
            return None
        d = self.env.defs.get(t)
        if d is None:
            return None
        k = d[0]
        if k == 'cmp':
            o = self.outcomes(d[1])
            if o <= d[2]:
                return True
            if not o & d[2]:
                return False
            return None
        if k in ('and', 'or'):
            stop = k == 'or'
            a = self.ev(d[1], depth + 1)
            if a is stop:
                return stop
            b = self.ev(d[2], depth + 1)
            if b is stop:
                return stop
            return (not stop) if a is not None and b is not None else None
        if k == 'xor':
            a, b = self.ev(d[1], depth + 1), self.ev(d[2], depth + 1)
            return None if a is None or b is None else a != b
        if k == 'sel':
            a = self.ev(d[1], depth + 1)
            if a is not None:
                return self.ev(d[2] if a else d[3], depth + 1)
            b, c = self.ev(d[2], depth + 1), self.ev(d[3], depth + 1)
            return b if b is not None and b == c else None
        return None

    def tell(self, t, v):
        todo = [(t, v)]
        while todo:
            t, v = todo.pop()
            if t in ('true', 'false') or t in self.truth:
                continue
            self.truth[t] = v
            d = self.env.defs.get(t)
            if d:
                if d[0] == 'cmp':
                    self.learn(d[1], d[2] if v else set('LEGU') - d[2])
                elif d[0] in ('and', 'or') and v == (d[0] == 'and'):
                    todo += [(d[1], v), (d[2], v)]
                elif d[0] == 'xor' and 'true' in d[1:]:
                    todo.append((d[1] if d[2] == 'true' else d[2], not v))
                else:
                    self.pend.append((t, v))
            if todo:
                continue
            rest = []
            for t, v in self.pend:
                d = self.env.defs[t]
                if d[0] in ('and', 'or'):
                    a, b = self.ev(d[1]), self.ev(d[2])
                    if a == (d[0] == 'and'):
                        todo.append((d[2], v))
                        continue
                    if b == (d[0] == 'and'):
                        todo.append((d[1], v))
                        continue
                elif d[0] == 'sel':
                    a = self.ev(d[1])
                    if a is not None:
                        todo.append((d[2] if a else d[3], v))
                        continue
                    b, c = self.ev(d[2]), self.ev(d[3])
                    if b is not None and b != v:
                        todo += [(d[1], False), (d[3], v)]
                        continue
                    if c is not None and c != v:
                        todo += [(d[1], True), (d[2], v)]
                        continue
                elif d[0] == 'xor':
                    a, b = self.ev(d[1]), self.ev(d[2])
                    if a is not None:
                        todo.append((d[2], v != a))
                        continue
                    if b is not None:
                        todo.append((d[1], v != b))
                        continue
                rest.append((t, v))
            self.pend = rest


class Env:
    pass


def conditions(ir, func):
    """-> ir with the conditions decided by dominating conditions replaced by constants, number of replacements"""
    fm = {}
    number(ir, func, fm)
    if not fm:
        return ir, 0
    lines, bs, order, dom, val, F = (fm[k] for k in ('lines', 'bs', 'order', 'dom', 'val', 'F'))
    env = Env()
    env.defs, env.nonneg, env.absof, env.absby = {}, set(), {}, {}
    for k, v in F.atoms.items():
        if isinstance(k, tuple) and k[0] == 'call' and re.match(r'(llvm\.(fabs|sqrt)\.|fabs$|sqrt$)', k[1]):
            P = key({((v, 1),): Fraction(1)})
            env.nonneg.add(P)
            if 'fabs' in k[1] and k[2]:
                env.absof[P] = k[2][0]
                env.absby.setdefault(k[2][0], []).append(P)
                n = key(add({}, dict(k[2][0]), -1))
                env.absby.setdefault(n, []).append(P)

    def cmpof(pr, a, b):
        if pr not in SETS:
            return None
        S = set(SETS[pr])
        fa = None if const(a) is not None or a in INF else key(val(a))
        fb = None if const(b) is not None or b in INF else key(val(b))
        if pr in ('ord', 'uno') and a == b:
            return ('cmp', (fa, Fraction(0), fa, None), S) if fa is not None else None
        if a in INF:
            a, b, fa, fb, S = b, a, fb, fa, {FLIP[x] for x in S}
        if b in INF:
            p, c = val(a), INF[b]
            k0 = p.get((), 0)
            p = {m: v for m, v in p.items() if m}
        else:
            if pr in ('ord', 'uno') and fa and fb:
                return None
            p = add(val(a), val(b), -1)
            c = -p.get((), Fraction(0))
            p = {m: v for m, v in p.items() if m}
        if not p:
            return None
        lead = p[sorted(p)[0]]
        p = {m: v / lead for m, v in p.items()}
        c = c / lead if c not in INF.values() else (c if lead > 0 else -c)
        if lead < 0:
            S = {FLIP[x] for x in S}
        return 'cmp', (key(p), c, fa, fb), S

    bools = set()
    for i, l in enumerate(lines):
        d = DEF.match(l)
        if not d:
            continue
        n, rhs = d.group(1), d.group(2)
        x = CMP.match(rhs)
        if x:
            bools.add(n)
            c = cmpof(*x.groups())
            if c:
                env.defs[n] = c
            elif x.group(1) in ('ord', 'uno'):
                two = [cmpof(x.group(1), t, t) for t in x.group(2, 3)]
                if all(two):
                    env.defs[n + '#a'], env.defs[n + '#b'] = two
                    env.defs[n] = ('and' if x.group(1) == 'ord' else 'or', n + '#a', n + '#b')
            continue
        x = BOOL2.match(rhs)
        if x:
            bools.add(n)
            env.defs[n] = x.groups()
            continue
        x = BSEL.match(rhs)
        if x:
            bools.add(n)
            env.defs[n] = ('sel',) + x.groups()
            continue
        if re.match(r'(icmp|phi i1|freeze i1|trunc \w+ [^ ]+ to i1|xor i1)', rhs):
            bools.add(n)
    preds = {b: [] for b in order}
    term = {}
    for b in order:
        t = '\n'.join(lines[i] for i in bs[b])
        for s in set(re.findall(r'label %([\w.$"-]+)', t)):
            preds.setdefault(s, []).append(b)
        for i in bs[b]:
            x = BR.match(lines[i])
            if x:
                term[b] = x.groups()
    first = lambda b: next((lines[i] for i in bs[b]), '')
    know, cnt, new = {}, 0, {}
    for b in order:
        par = dom.idom[b] if b != 'entry' else None
        k = Known(env, know.get(par))
        if len(preds[b]) == 1 and preds[b][0] in know and preds[b][0] in term:
            c, t, f = term[preds[b][0]]
            if t != f:
                k.tell(c, b == t)
        # assumptions hold for the whole block behind them; facts about values do not depend on where they are learnt
        know[b] = k
        for i in bs[b]:
            l = lines[i]
            x = ASM.match(l)
            if x:
                k.tell(x.group(1), True)
                continue
            d = DEF.match(l)
            head, tail = (l[:l.index('=') + 1], l[l.index('=') + 1:]) if d else ('', l)
            if d and tail.lstrip().startswith('phi'):
                continue

            def sub(mm, kk=k):
                nonlocal cnt
                t = mm.group(0)
                if t in bools or t in kk.truth:
                    v = kk.ev(t)
                    if v is not None:
                        cnt += 1
                        return 'true' if v else 'false'
                return t
            tail2 = re.sub(r'(?<!label )%[\w.$"-]+', sub, tail)
            if d and tail2 == tail:
                # the second operand only matters when the first leaves the result open
                x = BOOL2.match(d.group(2))
                y = BSEL.match(d.group(2))
                a = None
                if x and x.group(1) in ('and', 'or'):
                    a, z, w = x.group(2), x.group(3), x.group(1) == 'and'
                elif y and y.group(3) == 'false':
                    a, z, w = y.group(1), y.group(2), True
                elif y and y.group(2) == 'true':
                    a, z, w = y.group(1), y.group(3), False
                if a and a.startswith('%') and z.startswith('%') and a != z:
                    k2 = Known(env, k)
                    k2.tell(a, w)
                    v = k2.ev(z)
                    if v is None and x:
                        a, z = z, a
                        k2 = Known(env, k)
                        k2.tell(a, w)
                        v = k2.ev(z)
                    if v is not None:
                        cnt += 1
                        r = a if v == w else ('false' if w else 'true')
                        tail2 = ' and i1 %s, true' % r
            new[i] = head + tail2
    if not cnt:
        return ir, 0
    for i, l in new.items():
        lines[i] = l
    a, z = fm['span']
    return ir[:a] + '\n'.join(lines) + ir[z:], cnt


OFF = '!99990001'


def aim(ir, func):
    """-> ir in which only the loops to be peeled next may be: loops without inner loops that lie in no other loop, and, if there are none
    before it, the first loop nest (its outer loop).  None if the function is too large."""
    m = re.search(r'(define [^\n]*@' + re.escape(func) + r'\([^\n]*\{\n)(.*?)(\n\}\n)', ir, re.S)
    if not m:
        return ir
    lines, bs, order = blocks(m.group(2))
    if len(order) > SIZE:
        return None
    dom, succ = idoms(lines, bs, order, None)
    preds, back, pos = {}, {}, {}
    for b in dom.tin:
        for s in succ[b]:
            if s in dom.tin:
                preds.setdefault(s, []).append(b)
                if dom.over(s, b):
                    back.setdefault(s, []).append(b)
    if not back:
        return ir
    # position: reverse post-order
    seen, post, stack = {'entry'}, [], [('entry', iter(succ['entry']))]
    while stack:
        b, it = stack[-1]
        for x in it:
            if x in dom.tin and x not in seen:
                seen.add(x)
                stack.append((x, iter(succ[x])))
                break
        else:
            post.append(b)
            stack.pop()
    pos = {b: i for i, b in enumerate(reversed(post))}
    body = {}
    for h, ls in back.items():
        s, work = {h}, list(ls)
        while work:
            b = work.pop()
            if b not in s:
                s.add(b)
                work.extend(preds.get(b, []))
        body[h] = s
    inner = {h for h in back if any(h in body[k] for k in back if k != h)}
    simple = [h for h in back if h not in inner and not any(k in body[h] for k in back if k != h)]
    nests = sorted((h for h in back if h not in inner and h not in simple), key=pos.get)
    act = set(simple)
    # straight loops before the first nest are dealt with first, unless peeling leaves nothing else to do
    if nests and not any(pos[h] < pos[nests[0]] for h in simple):
        act.add(nests[0])
    for h, ls in back.items():
        if h in act:
            continue
        for b in ls:
            i = bs[b][-1]
            while not lines[i].strip():
                i -= 1
            lines[i] += ', !llvm.loop ' + OFF
    ir = ir[:m.start()] + m.group(1) + '\n'.join(lines) + m.group(3) + ir[m.end():]
    return ir + '\n%s = distinct !{%s, !99990002}\n!99990002 = !{!"llvm.loop.unroll.disable"}\n' % (OFF, OFF)

"""Rules over the token structure of the headers."""
import os, re, glob


class AnalysisError(Exception):
    pass


REPO = os.environ.get('QLV_REPO', '/repo')
_TOK = re.compile(r'operator\s*(?:\(\s*\)|\[\s*\]|""\s*\w+|[^\s\w("]+)|[A-Za-z_]\w*|\d[\w.\']*|::|->|""|\S')
_OPEN = {'{': '}', '(': ')', '[': ']'}


def _plain(text):
    """without comments, and with every literal reduced to "" (raw strings included)"""
    text = re.sub(r'R"([^(\s]*)\(.*?\)\1"', '""', text, flags=re.S)
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'(?!\w)',
                  lambda m: '""' if m.group(0)[0] in '"\'' else '\n' * m.group(0).count('\n') or ' ', text, flags=re.S)


def _branch(text, last):
    """the text with, of every conditional group, only the first (or only the last) branch; directives removed"""
    out, stack, lines, i = [], [], text.split('\n'), 0
    while i < len(lines):
        l = lines[i]
        if re.match(r'\s*#', l):
            n = 1
            while l.endswith('\\') and i + n < len(lines):
                l = lines[i + n]
                n += 1
            d = re.match(r'\s*#\s*(\w+)', lines[i])
            d = d.group(1) if d else ''
            if d in ('if', 'ifdef', 'ifndef'):
                rest, depth, k = False, 0, i + 1
                while k < len(lines):
                    m = re.match(r'\s*#\s*(if|ifdef|ifndef|endif|else|elif)\b', lines[k])
                    if m:
                        if m.group(1).startswith('if'):
                            depth += 1
                        elif m.group(1) == 'endif':
                            if depth == 0:
                                break
                            depth -= 1
                        elif depth == 0:
                            rest = True
                    k += 1
                stack.append([not (last and rest), rest])
            elif d in ('else', 'elif') and stack:
                stack[-1][0] = last and d == 'else'
            elif d == 'endif' and stack:
                stack.pop()
            out.extend([''] * n)
            i += n
            continue
        out.append(l if all(s[0] for s in stack) else '')
        i += 1
    return '\n'.join(out)


def _fast(text):
    line, pos = 1, 0
    for m in _TOK.finditer(text):
        line += text.count('\n', pos, m.start())
        pos = m.start()
        yield m.group(0), line


def _match(t, i):
    """index behind the bracket that closes t[i]"""
    d = 0
    while i < len(t):
        if t[i][0] in _OPEN:
            d += 1
        elif t[i][0] in ('}', ')', ']'):
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise AnalysisError('unbalanced brackets')


def _angle(w, i):
    d = 0
    while i < len(w):
        if w[i] == '<':
            d += 1
        elif w[i] == '>':
            d -= 1
            if d == 0:
                return i + 1
        elif w[i] in '([{' and d:
            k, n = i, 0
            while k < len(w):
                n += (w[k] in ('(', '[', '{')) - (w[k] in (')', ']', '}'))
                if n == 0:
                    break
                k += 1
            i = k
        i += 1
    return i


SPEC = {'inline', 'constexpr', 'consteval', 'static', 'friend', 'extern'}


def _declares(w, body):
    """the entity of one namespace-scope declaration with external linkage that is defined here and not inline, or None"""
    while w and w[0] == '[' and w[1:2] == ['[']:                     # attributes
        w = w[w.index(']') + 2:]
    if not w or w[0] in ('using', 'typedef', 'static_assert', 'namespace', 'friend', 'asm', 'concept', ';'):
        return None
    if w[0] == 'template':
        e = _angle(w, 1)
        if e > 3:
            return None                                             # a template (or partial specialisation): linked as inline
        w = w[e:]                                                   # template<>: an ordinary function or variable; template X: instantiation
        if w and w[0] in ('class', 'struct', 'union'):
            return None
    head, i = [], 0
    while i < len(w) and w[i] not in ('(', '=', '{', ';'):
        if w[i] == '<' and head and re.match(r'\w', head[-1]):
            i = _angle(w, i)
            continue
        if w[i] == 'decltype' or w[i] == 'alignas' or w[i] == 'noexcept' or w[i] == 'requires' or w[i] == '__attribute__':
            k, n = i + 1, 0
            while k < len(w):
                n += (w[k] == '(') - (w[k] == ')')
                k += 1
                if n == 0:
                    break
            head.append('auto'); i = k
            continue
        head.append(w[i]); i += 1
    if not head or SPEC & set(head):
        return None
    rest = w[i:]
    if head[0] in ('class', 'struct', 'union', 'enum') and not (body and rest[:1] == ['('] and len(head) > 2):
        return None
    name = head[-1]
    if rest[:1] == ['(']:
        k, n = 0, 0
        while k < len(rest):
            n += (rest[k] == '(') - (rest[k] == ')')
            k += 1
            if n == 0:
                break
        args, after = rest[1:k - 1], rest[k:]
        lit = [a for a in args if a != ',']
        if body or (after[:1] == ['='] and after[1:2] in (['default'], ['delete'])):
            return None if after[1:2] == ['delete'] else 'function ' + name
        if lit and all(re.match(r'\d|""$|-$|true$|false$|nullptr$', a) for a in lit):
            rest = ['=']                                            # T name(literals): a variable
        else:
            return None                                             # a function declaration
    if len([x for x in head if re.match(r'\w', x)]) < 2:
        return None                                                 # a macro call
    p = max([k for k, x in enumerate(head) if x == '*'], default=-1)
    if 'const' in head[p + 1 if p >= 0 else 0:]:
        return None                                                 # const: internal linkage
    return 'variable ' + name


def _scan(text):
    """-> [(line, entity)], number of namespace-scope declarations"""
    t = list(_fast(text))
    bad, n, i, scopes = [], 0, 0, []
    anon = 0
    cur, line, body, typ = [], 0, False, False
    while i < len(t):
        x, l = t[i]
        if not cur:
            line = l
        if x == '}':
            if not scopes:
                raise AnalysisError('unbalanced brackets')
            if scopes.pop():
                anon -= 1
            cur, i = [], i + 1
            continue
        if x == ';':
            n += bool(cur)
            e = None
            if typ:
                if cur[-1] != '{}' and not {'typedef', 'static', 'inline', 'const', 'constexpr', 'extern'} & set(cur[:cur.index('{}')]) - {'template'}:
                    e = 'variable ' + cur[cur.index('{}') + 1]
            elif cur:
                e = _declares(cur + [';'], body)
            if e and not anon:
                bad.append((line, e))
            cur, body, typ, i = [], False, False, i + 1
            continue
        if x == '{':
            if cur and 'namespace' in cur and cur[0] in ('namespace', 'inline') or cur == ['extern', '""']:
                a = cur == ['namespace']
                scopes.append(a)
                anon += a
                cur, i = [], i + 1
                continue
            j = _match(t, i)
            par = '(' in cur
            kw = cur
            if kw[:1] == ['template']:
                kw = kw[_angle(kw, 1):]
            if kw[:1] == ['requires']:
                kw = [y for y in kw if y in ('class', 'struct', 'union', 'enum')] or kw
            if kw and kw[0] in ('class', 'struct', 'union', 'enum') and not ('(' in kw and kw[0] != 'enum' and 'alignas' not in kw and '=' not in kw and _fn(kw)):
                typ = body = True
                cur.append('{}')
                i = j
                continue
            if par and '=' not in cur[:cur.index('(')]:
                nx = t[j][0] if j < len(t) else ''
                if ':' in cur[_close(cur):] and nx in (',', '{'):       # member initialiser with braces
                    cur.append('{}')
                    i = j
                    continue
                n += 1
                e = _declares(cur + ['{'], True)
                if e and not anon:
                    bad.append((line, e))
                cur, body, typ, i = [], False, False, j
                continue
            cur.append('{')
            i = j
            continue
        if x in ('(', '['):
            j = _match(t, i)
            cur.extend(y for y, _ in t[i:j])
            i = j
            continue
        cur.append(x)
        i += 1
    if scopes or cur:
        raise AnalysisError('unbalanced brackets or an unfinished declaration')
    return bad, n


def _fn(kw):
    """struct X f(...) {: a function returning an elaborated type"""
    p = kw.index('(')
    return p >= 3 and re.match(r'\w', kw[p - 1]) and re.match(r'\w', kw[p - 2])


def _close(w):
    p, n = w.index('('), 0
    while p < len(w):
        n += (w[p] == '(') - (w[p] == ')')
        p += 1
        if n == 0:
            break
    return p


def headers(**_):
    """header hygiene of the header-only library"""
    inc = REPO + '/include/'
    fs = sorted(os.path.relpath(f, inc) for f in glob.glob(inc + '**/*.h', recursive=True))
    if not fs:
        raise AnalysisError('no headers')
    viols, guards, n_inc, n_decl = [], {}, 0, 0

    def v(key, where, rule, text):
        viols.append(dict(key=key, where='include/' + where, rule=rule, text=text))
    for f in fs:
        raw = open(inc + f, encoding='utf-8', errors='replace').read()
        p = _plain(raw)
        code = [l.strip() for l in p.split('\n') if l.strip()]
        g = re.match(r'#\s*if(?:ndef\s+|\s*!\s*defined\s*\(?\s*)(\w+)', code[0]) if code else None
        d = re.match(r'#\s*define\s+(\w+)', code[1]) if len(code) > 1 else None
        if any(re.match(r'#\s*pragma\s+once', l) for l in code):
            pass
        elif not g or not d or g.group(1) != d.group(1) or not re.match(r'#\s*endif', code[-1]):
            v('guard:' + f, f, 'every header is protected against being included twice', 'no include guard around the whole header')
        else:
            guards.setdefault(g.group(1), []).append(f)
        for m in re.finditer(r'^\s*#\s*include\s*[<"](qlpeps/[^">]+|\.[^">]*)[>"]', re.sub(r'//[^\n]*|/\*.*?\*/', ' ', raw, flags=re.S), flags=re.M):
            n_inc += 1
            if not (os.path.exists(inc + m.group(1)) or os.path.exists(os.path.join(inc, os.path.dirname(f), m.group(1)))):
                v('include:%s:%s' % (f, m.group(1)), f, 'every header of the project that is included exists', 'includes %s, which does not exist' % m.group(1))
        bad = {}
        for last in (False, True):
            try:
                b, n = _scan(_branch(p, last))
            except AnalysisError as e:
                raise AnalysisError('%s: %s' % (f, e))
            n_decl += n if not last else 0
            for l, e in b:
                bad[(l, e)] = 1
        for l, e in sorted(bad):
            kind, name = e.split(' ', 1)
            if kind == 'function' and re.search(r'\b(?:inline|constexpr|consteval)\b[^;{}()]*(?<!\w)%s\s*\((?:[^;{}()]|\([^()]*\))*\)[\w\s]*;' % re.escape(name), p):
                continue                                            # declared inline earlier
            v('odr:%s:%s' % (f, e.replace(' ', ':')), f, 'no header defines a function or variable with external linkage that is not inline, so that several translation units can include it',
              '%s (line %d) is defined in the header and not inline' % (e, l))
    for k, fl in guards.items():
        if len(fl) > 1:
            v('guardname:%s:%s' % (k, ','.join(fl)), fl[0], 'no two headers share an include guard', 'guard %s is also that of %s: including one hides the other' % (k, ', '.join(fl[1:])))
    return dict(obligations=3 * len(fs) + n_inc + n_decl, headers=len(fs), includes=n_inc, namespace_scope_declarations=n_decl,
                applied='include guards unique, includes resolve, no non-inline external definition at namespace scope', violations=viols)

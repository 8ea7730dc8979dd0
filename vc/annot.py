"""Mechanical injection of loop contracts into a copy of a real source file.

The text of every function is left as it is; after the header of the n-th loop
of a named function the given __CPROVER_* clauses are inserted.  What is
dropped: nothing.  If the function or the loop does not exist any more,
AnnotError is raised and the unit falls back to its bounded stand-in.
"""
import re


class AnnotError(Exception):
    pass


def mask(text):
    """Same-length text with comments, strings and char constants blanked."""
    out = list(text)
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if text.startswith('/*', i):
            j = text.find('*/', i + 2)
            j = n if j < 0 else j + 2
        elif text.startswith('//', i):
            j = text.find('\n', i)
            j = n if j < 0 else j
        elif c in '"\'':
            j = i + 1
            while j < n and text[j] != c:
                j += 2 if text[j] == '\\' else 1
            j = min(n, j + 1)
        else:
            i += 1
            continue
        for k in range(i, j):
            if out[k] != '\n':
                out[k] = ' '
        i = j
    # preprocessor lines
    res = ''.join(out)
    return re.sub(r'(?m)^[ \t]*#(?:.*\\\n)*.*$', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), res)


def match(text, i, op, cl):
    d = 0
    while i < len(text):
        if text[i] == op:
            d += 1
        elif text[i] == cl:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise AnnotError('unbalanced ' + op)


def function_body(m, name):
    for f in re.finditer(r'\b%s\s*\(' % re.escape(name), m):
        # at top level?
        head = m[:f.start()]
        if head.count('{') != head.count('}'):
            continue
        e = match(m, m.index('(', f.start()), '(', ')')
        k = re.match(r'\s*\{', m[e + 1:])
        if k:
            b = e + 1 + k.end() - 1
            return b, match(m, b, '{', '}')
    raise AnnotError('function %s not found' % name)


def loops(m, b, e):
    """positions just after the header of each for/while loop, in order"""
    res = []
    do_whiles = set()
    for d in re.finditer(r'\bdo\b', m[b:e]):
        p = b + d.end()
        q = re.match(r'\s*\{', m[p:])
        if not q:
            continue
        c = match(m, p + q.end() - 1, '{', '}')
        w = re.match(r'\s*while\b', m[c + 1:])
        if w:
            do_whiles.add(c + 1 + w.end())
    for l in re.finditer(r'\b(for|while|LIST_FOR_EACH\w*)\b', m[b:e]):
        p = b + l.end()
        if p in do_whiles:
            continue
        c = match(m, m.index('(', p - 1 if m[p - 1] == '(' else p), '(', ')')
        res.append(c + 1)
    return res


def inject(text, spec):
    """spec: {function: {ordinal: clauses}}"""
    m = mask(text)
    ins = []
    for fn, ls in spec.items():
        b, e = function_body(m, fn)
        pos = loops(m, b, e)
        for o, clauses in ls.items():
            if o >= len(pos):
                raise AnnotError('%s has %d loops, not %d' % (fn, len(pos), o + 1))
            ins.append((pos[o], clauses))
    for p, c in sorted(ins, reverse=True):
        text = text[:p] + '\n' + c.strip() + '\n' + text[p:]
    return text

"""Mechanical extraction of /repo C files into annotated copies.

annotate(src_text, spec) -> text

The copy is byte-identical to the source except for
  * loop cuts: a loop keyed by (function, ordinal) gets its invariant asserted on
    entry, its frame havocked and the invariant assumed before the condition,
    and the invariant asserted (then the path ended) after the body.  The frame
    is every variable the loop text can modify (computed here, an error if it
    writes through a pointer the spec does not name) plus the ghost state;
  * 'detach'ed functions: the *definition* is renamed F -> F__body, so calls to
    F bind to the contract stub the harness declares before including the file.
Nothing is deleted or rewritten.
"""
import re

class AnnotError(Exception):
    pass

def blank(src):
    """Return src with comments, strings and char constants replaced by
    blanks (same length), preprocessor directives blanked as well."""
    out = list(src)
    i, n = 0, len(src)
    bol = True
    def wipe(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    while i < n:
        c = src[i]
        if src.startswith('/*', i):
            j = src.find('*/', i + 2)
            j = n if j < 0 else j + 2
            wipe(i, j); i = j
        elif src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            wipe(i, j); i = j
        elif c == '"' or c == "'":
            j = i + 1
            while j < n and src[j] != c:
                j += 2 if src[j] == '\\' else 1
            wipe(i + 1, min(j, n)); out[i] = '"'
            if j < n: out[j] = '"'
            i = j + 1
            bol = False
        elif c == '#' and bol:
            j = i
            while j < n and src[j] != '\n':
                if src[j] == '\\': j += 1
                elif src.startswith('/*', j):
                    k = src.find('*/', j + 2); j = n if k < 0 else k + 1
                j += 1
            wipe(i, j); i = j
        else:
            if c == '\n': bol = True
            elif not c.isspace(): bol = False
            i += 1
    return ''.join(out)

def match(b, i, o, c):
    """index just after the bracket closing b[i] (== o)"""
    d = 0
    while i < len(b):
        if b[i] == o: d += 1
        elif b[i] == c:
            d -= 1
            if d == 0: return i + 1
        i += 1
    raise AnnotError('unbalanced %s' % o)

def functions(b):
    """dict name -> (name_pos, body_start, body_end) for file-level definitions"""
    res = {}
    i, depth = 0, 0
    seg = 0
    while i < len(b):
        ch = b[i]
        if ch == '{':
            e = match(b, i, '{', '}')
            head = b[seg:i]
            m = None
            hs = head.rstrip()
            if hs.endswith(')'):
                # find matching '('
                d = 0; k = len(hs) - 1
                while k >= 0:
                    if hs[k] == ')': d += 1
                    elif hs[k] == '(':
                        d -= 1
                        if d == 0: break
                    k -= 1
                m = re.search(r'([A-Za-z_]\w*)\s*$', hs[:k])
                if m and '=' not in head[:m.start()]:
                    res[m.group(1)] = (seg + m.start(1), i, e)
            i = e
            # struct/enum/initialisers end with ';' - do not reset on those
            seg = i
            continue
        if ch == ';':
            seg = i + 1
        i += 1
    return res

LOOPKW = re.compile(r'\b(for|while|do|VTAILQ_FOREACH\w*|VSLIST_FOREACH\w*)\b')

class Loop:
    """kind, kw position, position of '(' and of the index after ')', extent"""
    def __init__(self, kind, kw, po, pc, start, end):
        self.kind, self.kw, self.po, self.pc = kind, kw, po, pc
        self.start, self.end = start, end

def loops(b, start, end):
    """loops in textual order of their first token"""
    res = []
    dowhiles = set()
    for m in LOOPKW.finditer(b, start, end):
        if m.group(1) != 'do': continue
        e = stmt_end(b, m.end(), end)
        mm = re.compile(r'\s*while\b').match(b, e)
        if not mm: raise AnnotError('do without while')
        dowhiles.add(mm.end() - 5)
    for m in LOOPKW.finditer(b, start, end):
        kw = m.group(1)
        if kw == 'while' and m.start() in dowhiles: continue
        if kw == 'do':
            e = stmt_end(b, m.end(), end)
            p = b.index('(', e)
            pc = match(b, p, '(', ')')
            res.append(Loop(kw, m.start(), p, pc, m.start(), pc))
        else:
            p = b.index('(', m.end())
            pc = match(b, p, '(', ')')
            res.append(Loop(kw, m.start(), p, pc, m.start(), stmt_end(b, pc, end)))
    return res

IDENT = r'[A-Za-z_]\w*'
CKW = set('if for while do switch return sizeof case break continue goto else default assert AZ AN XXXAZ xxxassert WRONG bprintf'.split())

def frame(b, fs, fe, lp):
    """Which variables can the loop text modify?  (locals, heap_bases)
    locals: identifiers assigned, incremented, address-taken, or arrays handed
    to a call inside the loop; heap_bases: pointers written through."""
    txt = b[lp.start:lp.end]
    body = b[fs:fe]
    arrays = set(re.findall(r'\b(?:char|int|unsigned|u?int\d+_t|struct\s+\w+|z_stream|size_t|ssize_t|uint8_t)\s+\**\s*(%s)\s*\[' % IDENT, body))
    for m in re.finditer(r'\b(?:char|int|unsigned|u?int\d+_t|struct\s+\w+|z_stream)\s+([^;(){}=]*\[[^;]*);', body):
        arrays |= set(re.findall(r'(%s)\s*\[' % IDENT, m.group(1)))
    decl_in = set()
    for m in re.finditer(r'[{;]\s*(?:const\s+)?(?:unsigned\s+|struct\s+)?%s\s+\**\s*(%s)\s*(?:=[^=]|;|\[|,)' % (IDENT, IDENT), txt):
        if not re.match(r'[{;]\s*(?:else|return|do|case|goto)\b', m.group(0)): decl_in.add(m.group(1))
    loc, heap = set(), set()
    # lvalue paths followed by an assignment / ++ / -- or preceded by ++ / --
    for m in re.finditer(r'VTAILQ_FOREACH(?:_SAFE)?\s*\(\s*(\w+)\s*,[^,]*,\s*\w+\s*(?:,\s*(\w+)\s*)?\)', txt):
        loc |= {x for x in m.groups() if x}
    path = r'((?:%s)(?:\s*(?:->|\.)\s*%s|\s*\[[^\]]*\])*)' % (IDENT, IDENT)
    cand = []
    for m in re.finditer(path + r'\s*(?:=(?!=)|\+=|-=|\*=|/=|%=|&=|\|=|\^=|<<=|>>=|\+\+|--)', txt):
        pre = txt[:m.start()].rstrip()
        cand.append((m.group(1), pre.endswith('*') and not re.search(r'[\w)\]]\s*\*+$', pre) or
                     pre.endswith('(*') or bool(re.search(r'[;{}(,]\s*\*+$', pre))))
    for m in re.finditer(r'(?:\+\+|--)\s*' + path, txt):
        cand.append((m.group(1), False))
    for m in re.finditer(r'\[([^\]]*)\]', txt):     # a[i++] = ...: the index, too
        for x in re.finditer(r'(%s)\s*(?:\+\+|--|=(?!=)|[-+*/%%|&^]=)|(?:\+\+|--)\s*(%s)' % (IDENT, IDENT), m.group(1)):
            if x.start() and m.group(1)[:x.start()].rstrip().endswith(('.', '->')): continue
            cand.append((x.group(1) or x.group(2), False))
    for m in re.finditer(r'(?<!&)&\s*' + path, txt):
        pre = txt[:m.start()].rstrip()
        if pre and (pre[-1] in '&)]' or pre[-1].isalnum() or pre[-1] == '_') and not re.search(r'\b(return|case)$', pre) \
            and not re.search(r'\((?:const\s+)?(?:struct\s+)?\w+\s*\*+\)$', pre):
            continue        # binary and
        cand.append((m.group(1), False))
    # macros which assign to their arguments
    for m in re.finditer(r'\b(?:ALLOC_OBJ|CAST_OBJ(?:_NOTNULL)?|TAKE_OBJ_NOTNULL|REPLACE|FREE_OBJ|ZERO_OBJ|bprintf)\s*\(\s*\(?\s*(\*?)\s*' + path, txt):
        cand.append((m.group(2), m.group(1) == '*'))
    for m in re.finditer(r'\bVTAILQ_(?:INSERT|REMOVE|SWAP|CONCAT)\w*\s*\(\s*(&?)\s*%s\s*,\s*(?:(&?)\s*%s)?' % (path, path), txt):
        for amp, x in ((m.group(1), m.group(2)), (m.group(3), m.group(4))):
            if x and x != 'list' and not (amp and '->' not in x): heap.add(re.match(IDENT, x).group(0))
    for p, deref in cand:
        base = re.match(IDENT, p).group(0)
        if deref:
            heap.add(base)
            if re.search(re.escape(p) + r'\s*(\+\+|--)', txt): loc.add(base)
        elif '->' in p: heap.add(base)
        elif '[' in p and base not in arrays: heap.add(base)
        else: loc.add(base)
    for a in arrays:
        if re.search(r'[(,]\s*(?:\([^()]*\)\s*)?%s\b\s*[,)+]' % a, txt) or re.search(r'\b%s\s*->' % a, txt):
            loc.add(a)
    loc -= decl_in
    heap -= decl_in
    return loc, heap

def skipws(b, i):
    while i < len(b) and b[i].isspace(): i += 1
    return i

def stmt_end(b, i, end):
    """index just after the C statement starting at i"""
    i = skipws(b, i)
    if b[i] == '{': return match(b, i, '{', '}')
    m = re.compile(r'(if|for|while|switch|VTAILQ_FOREACH\w*)\b').match(b, i)
    if m:
        p = b.index('(', m.end())
        e = match(b, p, '(', ')')
        e = stmt_end(b, e, end)
        if m.group(1) == 'if':
            mm = re.compile(r'\s*else\b').match(b, e)
            if mm: return stmt_end(b, mm.end(), end)
        return e
    m = re.compile(r'do\b').match(b, i)
    if m:
        e = stmt_end(b, m.end(), end)
        return b.index(';', e) + 1
    d = 0
    while i < end:
        if b[i] in '({[': d += 1
        elif b[i] in ')}]': d -= 1
        elif b[i] == ';' and d == 0: return i + 1
        i += 1
    raise AnnotError('statement end')

def annotate(src, loops_spec=None, detach=(), name=''):
    """loops_spec: {func: {'n': number of loops, ordinal: dict(inv=..., havoc=[...],
    setp={var: expr}, heap=[bases covered by havoc], dec=measure)}}"""
    b = blank(src)
    fns = functions(b)
    edits = []
    for f, spec in (loops_spec or {}).items():
        if f not in fns: raise AnnotError('function %s not found' % f)
        _, s, e = fns[f]
        ls = loops(b, s, e)
        if len(ls) != spec['n']:
            raise AnnotError('%s: %d loops, %d expected' % (f, len(ls), spec['n']))
        for o, sp in spec.items():
            if o == 'n': continue
            lp = ls[o]
            loc, heap = frame(b, fns[f][0], e, lp)
            miss = heap - set(sp.get('heap', []))
            if miss:
                raise AnnotError('%s loop %d writes through %s: not covered by the frame' % (f, o, sorted(miss)))
            setp = sp.get('setp', {})
            inv = ' && '.join('(' + ' '.join(x.split()) + ')' for x in sp['inv'])
            tag = '%s.loop%d' % (f, o)
            hv = ['__CPROVER_havoc_object((void*)&(%s));' % v for v in sorted(loc) if v not in setp]
            hv += ['__CPROVER_havoc_object((void*)&(%s));' % v for v in sp.get('havoc', [])]
            hv += ['%s = %s;' % kv for kv in setp.items()]
            chk = lambda w: ''.join('__CPROVER_assert((%s), "loop invariant of %s (%s): %s");' % (
                ' '.join(x.split()), tag, w, ' '.join(x.split()).replace('\\', '').replace('"', "'")[:60]) for x in sp['inv'])
            pre = chk('entry') + ''.join(hv) + '__CPROVER_assume(%s);' % inv
            post = '__CPROVER_assert(0, "REACH %s step");' % tag + ('%s = 1;' % sp['mark'] if sp.get('mark') else '') + chk('step') + '__CPROVER_assume(0);'
            if sp.get('dec'):
                dv = 'vf_dec_%s_%d' % (f, o)
                edits.append((0, 0, 'static long long %s; ' % dv))
                pre += '%s = (long long)(%s);' % (dv, sp['dec'])
                post = post.replace('__CPROVER_assume(0);', '__CPROVER_assert(%s >= 0 && (long long)(%s) < %s, "loop measure of %s decreases: %s");__CPROVER_assume(0);' % (dv, sp['dec'], dv, tag, sp['dec']))
            if lp.kind == 'while':
                edits.append((lp.kw, 5, 'for (({ %s }); ' % pre))
                edits.append((lp.pc, 0, '; ({ %s }))' % post))
            elif lp.kind == 'for':
                d = 0; semis = []
                for k in range(lp.po, lp.pc):
                    if b[k] in '([{': d += 1
                    elif b[k] in ')]}': d -= 1
                    elif b[k] == ';' and d == 1: semis.append(k)
                init = b[lp.po + 1:semis[0]].strip()
                step = b[semis[1] + 1:lp.pc - 1].strip()
                edits.append((semis[0], 0, (', ' if init else '') + '({ %s })' % pre))
                edits.append((lp.pc - 1, 0, (', ' if step else '') + '({ %s })' % post))
            elif lp.kind == 'do':
                pv = b[:lp.kw].rstrip()[-1]
                if pv not in ';{}': raise AnnotError('do loop is not a plain statement')
                edits.append((lp.kw, 0, '({ %s }); ' % pre))
                edits.append((lp.po + 1, 0, '('))
                edits.append((lp.pc - 1, 0, ') && ({ %s 0; })' % post))
            elif lp.kind in ('VTAILQ_FOREACH', 'VTAILQ_FOREACH_SAFE'):
                # the macros of vqueue.h, spelled out
                a = [x.strip() for x in src[lp.po + 1:lp.pc - 1].split(',')]
                if lp.kind == 'VTAILQ_FOREACH':
                    t = '%s = VTAILQ_FIRST(%s), ({ %s }); %s != NULL; %s = VTAILQ_NEXT(%s, %s), ({ %s })' % (
                        a[0], a[1], pre, a[0], a[0], a[0], a[2], post)
                else:
                    t = '%s = VTAILQ_FIRST(%s), ({ %s }); %s != NULL && (%s = VTAILQ_NEXT(%s, %s), 1); %s = %s, ({ %s })' % (
                        a[0], a[1], pre, a[0], a[3], a[0], a[2], a[0], a[3], post)
                edits.append((lp.kw, lp.pc - lp.kw, 'for (' + t + ')'))
            else:
                raise AnnotError('macro loop')
    for f in detach:
        if f not in fns: raise AnnotError('function %s not found' % f)
        p = fns[f][0]
        edits.append((p + len(f), 0, '__body'))
    out = src
    for p, n, t in sorted(edits, reverse=True):
        out = out[:p] + t + out[p + n:]
    return out

def shape(src):
    """control structure of every loop: {func: [[kind, condition, jumps]]}"""
    b = blank(src)
    r = {}
    for f, (p, s, e) in functions(b).items():
        r[f] = []
        for l in loops(b, s, e):
            head = b[l.po + 1:l.pc - 1]
            cond = head.split(';')[1] if l.kind == 'for' and head.count(';') == 2 else head
            jumps = len(re.findall(r'\b(?:break|continue|goto|return)\b', b[l.start:l.end]))
            r[f].append([l.kind, ''.join(cond.split()), jumps])
    return r

def reshaped(old, new):
    """has a loop been rewritten into another kind of loop?  Its annotation
    was made for the old one: another kind, or jumps traded for a condition"""
    return len(old) != len(new) or any(a[0] != c[0] or (a[1] != c[1] and a[2] != c[2]) for a, c in zip(old, new))

def loop_table(src):
    b = blank(src)
    r = {}
    for f, (p, s, e) in functions(b).items():
        r[f] = [(l.kind,) + tuple(map(sorted, frame(b, p, e, l))) for l in loops(b, s, e)]
    return r

if __name__ == '__main__':
    import sys
    for fn in sys.argv[1:]:
        t = loop_table(open(fn).read())
        for f, l in t.items():
            for x in l: print(fn, f, x)

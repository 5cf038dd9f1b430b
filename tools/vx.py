"""Mechanical extraction of Rust functions into Verus text.

Reads the functions named by contracts/*.vrs from /repo's current source, lowers a
fixed list of idioms (see LOWERINGS in DESIGN.md), and splices the contracts in.
Everything that is not covered by a lowering is passed to Verus token for token.
"""
import os, re

class Lost(Exception):
    """The code no longer has the shape the contract is anchored to (not an alarm)."""

# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<raw>b?r(?P<h>\#*)")
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*(?!'))
 |(?P<chr>b?'(?:\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)|[^'\\])')
 |(?P<num>\d[A-Za-z0-9_]*(?:\.\d[A-Za-z0-9_]*)?)
 |(?P<id>\$*[A-Za-z_][A-Za-z0-9_]*|\$\$?[A-Za-z_]\w*)
 |(?P<p>\.\.\.|\.\.=|<<=|>>=|<==>|==>|&&&|\|\|\||=~=|=~~=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|\|=|&=|<<|\.\.|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
''', re.X | re.S)

def tokenize(text):
    out, i, n = [], 0, len(text)
    while i < n:
        m = TOK.match(text, i)
        if not m:
            raise Lost("cannot tokenize at %r" % text[i:i + 30])
        k = m.lastgroup
        if k == 'h':
            k = 'raw'
        if k == 'bc':
            d, j = 1, i + 2
            while d and j < n:
                if text.startswith('/*', j): d += 1; j += 2
                elif text.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j
            continue
        if m.group('raw') is not None:
            end = '"' + m.group('h')
            j = text.index(end, m.end()) + len(end)
            out.append(text[i:j]); i = j
            continue
        if m.group('ws') is None and m.group('lc') is None:
            out.append(m.group(0))
        i = m.end()
    return out

OPEN, CLOSE = {'(': ')', '[': ']', '{': '}'}, {')', ']', '}'}

class G:
    """A bracketed group."""
    __slots__ = ('o', 'k')
    def __init__(self, o, k): self.o, self.k = o, k
    def __eq__(self, x): return isinstance(x, G) and x.o == self.o and x.k == self.k
    def __repr__(self): return 'G(%s %r)' % (self.o, self.k)

def tree(toks):
    stack = [(None, [])]
    for t in toks:
        if t in OPEN:
            stack.append((t, []))
        elif t in CLOSE:
            o, k = stack.pop()
            if o is None or OPEN[o] != t:
                raise Lost("unbalanced brackets")
            stack[-1][1].append(G(o, k))
        else:
            stack[-1][1].append(t)
    if len(stack) != 1:
        raise Lost("unbalanced brackets")
    return stack[0][1]

def parse(text): return tree(tokenize(text))

def is_id(t): return isinstance(t, str) and re.match(r'[A-Za-z_]', t) is not None

NOSP_BEFORE = {'.', ',', ';', '?', ':', '::'}
def render(nodes, ind=0):
    out = []
    def emit(ns, ind):
        prev = None
        for x in ns:
            if isinstance(x, Raw):
                out.append('\n' + x.text.rstrip() + '\n' + ' ' * ind)
            elif isinstance(x, G):
                if x.o == '{':
                    out.append(' {\n' + ' ' * (ind + 4)); emit(x.k, ind + 4); out.append('\n' + ' ' * ind + '}')
                    out.append('\n' + ' ' * ind)
                else:
                    out.append(x.o); emit(x.k, ind); out.append(OPEN[x.o])
            else:
                if prev is not None and isinstance(x, str):
                    if not (x in ('.', ',', ';', '?') or (isinstance(prev, str) and prev in ('.', '&', '!', '::', '#')) or x in ('::', '!') ):
                        out.append(' ')
                out.append(x)
                if x == ';':
                    out.append('\n' + ' ' * ind)
            prev = x
    emit(nodes, ind)
    return re.sub(r'\n\s*\n+', '\n', ''.join(out))

class Raw:
    """Contract text spliced in."""
    def __init__(self, text): self.text = text
    def __eq__(self, x): return self is x

# ---------------------------------------------------------------- items
def strip_attrs(ns):
    out, i = [], 0
    while i < len(ns):
        if ns[i] == '#' and i + 1 < len(ns) and isinstance(ns[i + 1], G) and ns[i + 1].o == '[':
            a = re.sub(r'\s', '', render(ns[i + 1].k))
            i += 2
            if a == 'cfg(target_pointer_width="16")':
                # not compiled here: the statement goes with it
                while i < len(ns) and ns[i] != ';' and not (isinstance(ns[i], G) and ns[i].o == '{'): i += 1
                i += 1
            continue
        if ns[i] == '#' and i + 2 < len(ns) and ns[i + 1] == '!' and isinstance(ns[i + 2], G):
            i += 3
            continue
        out.append(ns[i]); i += 1
    return out

def cfg_test(ns, i):
    return False

def items_drop_test(ns):
    """Drop `#[cfg(test)] mod ... {}` items."""
    out, i = [], 0
    while i < len(ns):
        if ns[i] == '#' and i + 1 < len(ns) and isinstance(ns[i + 1], G) and render(ns[i + 1].k).replace(' ', '') in ('cfg(test)', 'test'):
            j = i + 2
            while j < len(ns) and not (isinstance(ns[j], G) and ns[j].o == '{') and ns[j] != ';':
                j += 1
            i = j + 1
            continue
        out.append(ns[i]); i += 1
    return out

_cache = {}
def load(repo, path):
    p = os.path.join(repo, path)
    if p not in _cache:
        try:
            _cache[p] = items_drop_test(parse(open(p, encoding='utf-8').read()))
        except FileNotFoundError:
            raise Lost("no such file: " + path)
    return _cache[p]

def angle_skip(ns, i):
    """ns[i] == '<': index after the matching '>'."""
    d = 0
    while i < len(ns):
        if ns[i] == '<': d += 1
        elif ns[i] == '>': d -= 1
        elif ns[i] == '<<': d += 2
        elif ns[i] == '>>': d -= 2
        i += 1
        if d == 0:
            return i
    raise Lost("unbalanced <>")

def find_impls(ns):
    """(generics, header tokens, body) of every impl at this level or inside inline modules."""
    i = 0
    while i < len(ns):
        if ns[i] == 'impl':
            j = i + 1
            gen = []
            if j < len(ns) and ns[j] == '<':
                e = angle_skip(ns, j)
                gen = ns[j:e]; j = e
            k = j
            while k < len(ns) and not (isinstance(ns[k], G) and ns[k].o == '{') and ns[k] != ';':
                k += 1
            if k < len(ns) and isinstance(ns[k], G):
                yield gen, ns[j:k], ns[k].k
                yield from find_impls(ns[k].k)
            i = k + 1
        elif ns[i] in ('fn', 'macro_rules'):
            while i < len(ns) and not (isinstance(ns[i], G) and ns[i].o == '{') and ns[i] != ';':
                i += 1
            if i < len(ns) and isinstance(ns[i], G): yield from find_impls(ns[i].k)
            i += 1
        elif ns[i] == 'mod' and i + 2 < len(ns) and isinstance(ns[i + 2], G):
            yield from find_impls(ns[i + 2].k)
            i += 3
        else:
            i += 1

def head_match(head, want):
    """want: 'Type' (inherent), or 'Trait for Type'."""
    h = list(head)
    if 'where' in h:
        h = h[:h.index('where')]
    s = re.sub(r'<.*>', '', render(h).replace(' ', '~')).replace('~', ' ')
    s = re.sub(r"'\w+", '', s)
    s = re.sub(r'\s+', ' ', s).strip()
    full = re.sub(r'\s+', '', render(h))
    if ' for ' in want:
        return full == re.sub(r'\s+', '', want) or s == want
    return 'for' not in h and s.split('::')[-1].strip() == want

class Fn:
    pass

def find_fn(ns, name):
    i, found = 0, None
    while i < len(ns):
        if ns[i] == 'fn' and i + 1 < len(ns) and ns[i + 1] == name:
            j = i
            while j < len(ns) and not (isinstance(ns[j], G) and ns[j].o == '{') and ns[j] != ';':
                j += 1
            if j < len(ns) and isinstance(ns[j], G):
                f = Fn(); f.sig = ns[i:j]; f.body = ns[j].k
                # visibility
                return f
        if ns[i] == 'mod' and i + 2 < len(ns) and isinstance(ns[i + 2], G):
            r = find_fn(ns[i + 2].k, name)
            if r: return r
        i += 1
    return None

def get_fn(repo, path, item):
    ns = load(repo, path)
    if '::' in item:
        ty, name = item.rsplit('::', 1)
        for gen, head, body in find_impls(ns):
            if head_match(head, ty):
                f = find_fn(body, name)
                if f:
                    f.gen, f.head = gen, head
                    f.name, f.ty = name, ty
                    return f
        raise Lost("function %s not found in %s" % (item, path))
    f = find_fn([x for x in ns], item)
    if not f:
        raise Lost("function %s not found in %s" % (item, path))
    f.gen, f.head, f.name, f.ty = None, None, item, None
    return f

def nested(ns):
    yield ns
    for x in ns:
        if isinstance(x, G) and x.o == '{': yield from nested(x.k)

def get_struct(repo, path, name):
    for ns in nested(load(repo, path)):
        try: return get_struct_in(ns, path, name)
        except Lost: pass
    raise Lost("type %s not found in %s" % (name, path))

def get_struct_in(ns, path, name):
    for i, t in enumerate(ns):
        if t in ('struct', 'enum') and i + 1 < len(ns) and ns[i + 1] == name:
            j = i
            while not (isinstance(ns[j], G) and ns[j].o in '{(') and ns[j] != ';':
                j += 1
            gen = ns[i + 2:j]
            if ns[j] == ';':
                return t, gen, G('{', [])
            return t, gen, ns[j]
    raise Lost("type %s not found in %s" % (name, path))

# ---------------------------------------------------------------- rewriting
STARTERS_BLOCK = {'.', '::'}

def operand_ends(ns, i):
    """Ends of postfix operands starting at i, shortest first."""
    if i >= len(ns): return
    t = ns[i]
    if isinstance(t, G):
        if t.o == '{': return
    elif isinstance(t, Raw) or not (is_id(t) or re.match(r'\d', t)):
        return
    elif t in ('let', 'if', 'while', 'for', 'match', 'return', 'in', 'mut', 'else', 'move', 'ref'):
        return
    j = i + 1
    yield j
    while j < len(ns):
        if ns[j] == '.' and j + 1 < len(ns) and (is_id(ns[j + 1]) or (isinstance(ns[j + 1], str) and ns[j + 1].isdigit())):
            j += 2
            if j < len(ns) and ns[j] == '::' and ns[j + 1] == '<':
                j = angle_skip(ns, j + 1)
            if j < len(ns) and isinstance(ns[j], G) and ns[j].o == '(':
                j += 1
            yield j
        elif ns[j] == '::' and j + 1 < len(ns) and is_id(ns[j + 1]):
            j += 2
            yield j
        elif isinstance(ns[j], G) and ns[j].o in '([':
            j += 1
            yield j
        elif ns[j] == '?':
            j += 1
            yield j
        else:
            return

def match(pat, pi, ns, i, b, full):
    if pi == len(pat):
        if full and i != len(ns): return None
        return i, b
    p = pat[pi]
    if isinstance(p, str) and p.startswith('$$'):
        if full and pi + 1 == len(pat) and p not in b:
            b2 = dict(b); b2[p] = ns[i:]
            return len(ns), b2
        j = i
        while True:
            if p in b:
                k = len(b[p])
                if ns[i:i + k] == b[p]:
                    return match(pat, pi + 1, ns, i + k, b, full)
                return None
            b2 = dict(b); b2[p] = ns[i:j]
            r = match(pat, pi + 1, ns, j, b2, full)
            if r: return r
            if j >= len(ns) or ns[j] == ';': return None
            j += 1
    if isinstance(p, str) and p.startswith('$'):
        if p in b:
            k = len(b[p])
            if ns[i:i + k] == b[p]:
                return match(pat, pi + 1, ns, i + k, b, full)
            return None
        for j in operand_ends(ns, i):
            b2 = dict(b); b2[p] = ns[i:j]
            r = match(pat, pi + 1, ns, j, b2, full)
            if r: return r
        return None
    if i >= len(ns): return None
    x = ns[i]
    if isinstance(p, G):
        if not isinstance(x, G) or x.o != p.o: return None
        r = match(p.k, 0, x.k, 0, b, True)
        if not r: return None
        return match(pat, pi + 1, ns, i + 1, r[1], full)
    if x == p:
        return match(pat, pi + 1, ns, i + 1, b, full)
    return None

def subst(rep, b):
    out = []
    for x in rep:
        if isinstance(x, G): out.append(G(x.o, subst(x.k, b)))
        elif isinstance(x, str) and x.startswith('$'):
            if x not in b: raise Lost("unbound " + x)
            out.extend(b[x])
        else: out.append(x)
    return out

def rewrite(ns, pat, rep, counter):
    out, i = [], 0
    while i < len(ns):
        r = None
        first = pat[0]
        if not (isinstance(first, str) and first.startswith('$')) or not (i > 0 and isinstance(ns[i - 1], str) and ns[i - 1] in STARTERS_BLOCK):
            r = match(pat, 0, ns, i, {}, False)
        if r and r[0] > i:
            counter[0] += 1
            if counter[0] > 2000: raise Lost("rewriting does not end")
            b = {k: rewrite(v, pat, rep, counter) if len(v) < r[0] - i else v for k, v in r[1].items()}
            out.extend(subst(rep, b))
            i = r[0]
        else:
            x = ns[i]
            out.append(G(x.o, rewrite(x.k, pat, rep, counter)) if isinstance(x, G) else x)
            i += 1
    return out

# ---------------------------------------------------------------- lowering of panicking macros and loops
def lower_macros(ns):
    out, i = [], 0
    while i < len(ns):
        x = ns[i]
        if isinstance(x, str) and i + 2 < len(ns) and ns[i + 1] == '!' and isinstance(ns[i + 2], G):
            args = ns[i + 2].k
            if x in ('assert', 'debug_assert'):
                out += ['vx_assert', G('(', lower_macros(split_commas(args)[0]))]; i += 3; continue
            if x in ('assert_eq', 'debug_assert_eq', 'assert_ne', 'debug_assert_ne'):
                a = split_commas(args)
                out += ['vx_assert', G('(', [G('(', lower_macros(a[0])), '==' if '_eq' in x else '!=', G('(', lower_macros(a[1]))])]; i += 3; continue
            if x in ('panic', 'unreachable', 'unimplemented', 'todo'):
                out += ['vx_unreachable', G('(', [])]; i += 3; continue
            if x in ('trace', 'debug', 'info', 'warn', 'log'):
                i += 3
                if i < len(ns) and ns[i] == ';': i += 1
                continue
        if x == 'log' and ns[i + 1:i + 2] == ['::'] and ns[i + 3:i + 4] == ['!']:
            i += 5
            if i < len(ns) and ns[i] == ';': i += 1
            continue
        out.append(G(x.o, lower_macros(x.k)) if isinstance(x, G) else x)
        i += 1
    return out

def split_commas(ns):
    out, cur = [], []
    for x in ns:
        if x == ',': out.append(cur); cur = []
        else: cur.append(x)
    if cur: out.append(cur)
    return out

def ends(ns, suffix):
    s = parse(suffix)
    return len(ns) > len(s) and ns[-len(s):] == s

class Loops:
    """Numbers loops in source order and lowers `for` loops to index loops."""
    def __init__(self, spec, modes):
        self.n = 0; self.ifs = 0; self.spec = spec; self.modes = modes; self.kinds = []
    def hooks(self, key):
        t = self.spec.get(key)
        return [Raw(t)] if t else []
    def walk(self, ns):
        out, i = [], 0
        while i < len(ns):
            x = ns[i]
            if x in ('while', 'for', 'loop') and not (x == 'for' and i + 1 < len(ns) and ns[i + 1] == '<'):
                j = i + 1
                while j < len(ns) and not (isinstance(ns[j], G) and ns[j].o == '{'): j += 1
                if j >= len(ns): raise Lost("loop without body")
                k = self.n; self.n += 1
                label = []
                if len(out) >= 2 and out[-1] == ':' and isinstance(out[-2], str) and out[-2].startswith("'"):
                    label = out[-2:]; del out[-2:]
                pre = self.hooks('loop%d.pre' % k)
                inv = [Raw(self.spec['loop%d' % k])] if ('loop%d' % k) in self.spec else []
                head = ns[i + 1:j]
                if x == 'for':
                    setup, cond, bind = self.lower_for(k, head)
                else:
                    setup, cond, bind = [], None, []
                    self.kinds.append(x)
                body = self.hooks('loop%d.begin' % k) + self.walk(ns[j].k)
                endh = self.hooks('loop%d.end' % k)
                if endh and body and not ends_stmt(body): body.append(';')
                body = bind + body + endh
                if x == 'for':
                    out += setup + pre + label + ['while'] + cond + inv + [G('{', body)]
                else:
                    out += pre + label + [x] + self.walk(head) + inv + [G('{', body)]
                out += self.hooks('loop%d.post' % k)
                i = j + 1
                continue
            if x == 'if':
                k = self.ifs; self.ifs += 1
                j = i + 1
                while j < len(ns) and not (isinstance(ns[j], G) and ns[j].o == '{'): j += 1
                if j >= len(ns): raise Lost("if without body")
                pre = self.hooks('if%d.pre' % k)
                cond = self.walk(ns[i + 1:j])
                body = self.hooks('if%d.then' % k) + self.walk(ns[j].k)
                endh = self.hooks('if%d.thenend' % k)
                if endh and body and not ends_stmt(body): body.append(';')
                out += pre + ['if'] + cond + [G('{', body + endh)]
                i = j + 1
                if i + 1 < len(ns) and ns[i] == 'else' and isinstance(ns[i + 1], G):
                    b2 = self.hooks('if%d.else' % k) + self.walk(ns[i + 1].k)
                    e2 = self.hooks('if%d.elseend' % k)
                    if e2 and b2 and not ends_stmt(b2): b2.append(';')
                    out += ['else', G('{', b2 + e2)]
                    i += 2
                    out += self.hooks('if%d.post' % k)
                elif not (i < len(ns) and ns[i] == 'else'):
                    h = self.hooks('if%d.elseend' % k)
                    if h: out += ['else', G('{', h)]
                    out += self.hooks('if%d.post' % k)
                continue
            out.append(G(x.o, self.walk(x.k)) if isinstance(x, G) else x)
            i += 1
        return out

    def lower_for(self, k, head):
        if 'in' not in head: raise Lost("for without in")
        p = head.index('in')
        pat, e = head[:p], head[p + 1:]
        mode = self.modes.get(k)
        s, ix = '__s%d' % k, '__i%d' % k
        inc = [ix, '=', ix, '+', '1', ';']
        self.kinds.append('for')
        # ranges
        depth0 = [q for q, t in enumerate(e) if t in ('..', '..=')]
        if depth0 and len(depth0) == 1:
            q = depth0[0]
            a, b = e[:q], e[q + 1:]
            if e[q] == '..=': raise Lost("inclusive range loop")
            en = '__e%d' % k
            return (['let', 'mut', ix, '='] + a + [';', 'let', en, '='] + b + [';'], [ix, '<', en],
                    ['let'] + pat + ['=', ix, ';'] + inc)
        enum = False
        if ends(e, '.enumerate()'):
            e = e[:-3]; enum = True
            pp = parse_pair(pat)
            ipat, pat = pp
        byref, rev = False, False
        if ends(e, '.iter_mut()'): e = ['&', 'mut'] + e[:-3]
        if e[:2] == ['&', 'mut'] and not (len(e) > 3 and e[-3:-1] == ['.', 'zip']):
            v = e[2:]
            bind = ['let'] + pat + ['=', '&', 'mut'] + v + [G('[', [ix]), ';']
            if enum:
                bind = ['let'] + ipat + ['=', ix, ';'] + bind
            return (['let', 'mut', ix, ':', 'usize', '=', '0', ';'], [ix, '<'] + v + ['.', 'len', G('(', [])], bind + inc)
        if len(e) > 3 and e[-3:-1] == ['.', 'zip'] and isinstance(e[-1], G):
            # zip of two sequences in memory: both are read up to the shorter length
            a, b = e[:-3], e[-1].k
            if b[-1:] == [',']: b = b[:-1]
            pa, pb = parse_pair(pat)
            binds, setup, conds = [], [], []
            for q, (x, px) in enumerate(((a, pa), (b, pb))):
                sq = '__%s%d' % ('sz'[q], k)
                if ends(x, '.iter_mut()'):
                    x = x[:-3]
                    conds.append([ix, '<'] + x + ['.', 'len', G('(', [])])
                    binds += ['let'] + px + ['=', '&', 'mut'] + x + [G('[', [ix]), ';']
                    continue
                if q == 1 and x == parse('SymbolSource::generate_fresh()'):
                    binds += ['let'] + px + ['=', 'vx_fresh', G('(', [ix]), ';']
                    continue
                if ends(x, '.into_iter()') and mode == 'value':
                    # each element is taken once
                    setup += ['let', sq, '='] + x[:-3] + [';']
                    conds.append([ix, '<', sq, '.', 'len', G('(', [])])
                    binds += ['let'] + px + ['=', 'vx_take_arr', G('(', ['&', sq, ',', ix]), ';']
                    continue
                if ends(x, '.iter()'): x = ['&'] + x[:-3]
                elif not (x[:1] == ['&'] and x[1:2] != ['mut']): raise Lost("zip over an expression outside the lowering: " + render(x))
                setup += ['let', sq, '='] + x + [';']
                conds.append([ix, '<', sq, '.', 'len', G('(', [])])
                if px[:1] == ['&']: binds += ['let'] + px[1:] + ['=', sq, G('[', [ix]), ';']
                else: binds += ['let'] + px + ['=', '&', sq, G('[', [ix]), ';']
            if enum: binds = ['let'] + ipat + ['=', ix, ';'] + binds
            return (setup + ['let', 'mut', ix, ':', 'usize', '=', '0', ';'], conds[0] + (['&&'] + conds[1] if len(conds) > 1 else []), binds + inc)
        if mode == 'value':
            src = e
            elem = ['vx_take', G('(', ['&', s, ',', ix])]
            bind = ['let'] + pat + ['='] + elem + [';']
        else:
            if ends(e, '.rev()'):
                e = e[:-3]; rev = True
            copied = False
            if ends(e, '.copied()') or ends(e, '.cloned()'):
                e = e[:-3]; copied = True
            if e[:1] == ['&'] and e[1:2] != ['mut']:
                src = e
                if ends(src, '[..]'): src = src[:-1]
            elif ends(e, '.iter()'):
                src = ['&'] + e[:-3]
                if ends(src, '[..]'): src = src[:-1]
            elif mode == 'ref':
                src = e
            else:
                raise Lost("for loop over an expression outside the lowering: " + render(e))
            idx = [s, '.', 'len', G('(', []), '-', '1', '-', ix] if rev else [ix]
            if pat[:1] == ['&']:
                bind = ['let'] + pat[1:] + ['=', s, G('[', idx), ';']
            elif copied:
                bind = ['let'] + pat + ['=', s, G('[', idx), ';']
            else:
                bind = ['let'] + pat + ['=', '&', s, G('[', idx), ';']
        if enum:
            bind = ['let'] + ipat + ['=', ix, ';'] + bind
        return (['let', s, '='] + src + [';', 'let', 'mut', ix, ':', 'usize', '=', '0', ';'],
                [ix, '<', s, '.', 'len', G('(', [])], bind + inc)

def parse_pair(pat):
    if len(pat) == 1 and isinstance(pat[0], G):
        a = split_commas(pat[0].k)
        if len(a) == 2: return a
    raise Lost("enumerate pattern")

def ends_stmt(ns):
    x = ns[-1]
    return x == ';' or isinstance(x, Raw) or (isinstance(x, G) and x.o == '{')

# ---------------------------------------------------------------- contract files
class Contract:
    def __init__(self):
        self.path = self.item = None
        self.spec = {}; self.modes = {}; self.rw = []; self.attrs = ''; self.expect = None
        self.named = 'ret'; self.sigrw = []; self.free = False; self.newname = None; self.closures = []
        self.hdr = None

def cut(a):
    """'pattern => replacement' (or ==>> where the pattern itself has =>)."""
    sep = ' ==>>' if ' ==>>' in a else ' =>'
    l, r = a.split(sep, 1)
    return l.strip(), r.strip()

def parse_contract(block):
    """block: lines from //@fn to //@end (exclusive)."""
    c = Contract()
    cur = 'spec'
    buf = {}
    for line in block:
        m = re.match(r'\s*//@(\w+)\s*(.*)$', line)
        if m:
            d, a = m.group(1), m.group(2).strip()
            if d == 'fn':
                parts = a.split(None, 1)
                c.path, c.item = parts[0], parts[1].strip()
                cur = 'spec'
            elif d == 'loop': cur = 'loop%s' % a
            elif d == 'at': cur = a
            elif d == 'rewrite': 
                l, r = cut(a)
                c.rw.append((parse(l), parse(r), a, False))
            elif d == 'rewrite_opt':
                l, r = cut(a)
                c.rw.append((parse(l), parse(r), a, True))
            elif d == 'sig':
                l, r = cut(a)
                c.sigrw.append((parse(l), parse(r), a))
            elif d == 'for':
                k, mo = a.split(); c.modes[int(k)] = mo
            elif d == 'attr': c.attrs += a + '\n'
            elif d == 'loops': c.expect = a
            elif d == 'ret': c.named = a
            elif d == 'free': c.free = True
            elif d == 'name': c.newname = a
            elif d == 'impl': c.hdr = a
            else: raise Exception("bad directive " + line)
            continue
        buf.setdefault(cur, []).append(line)
    for k, v in buf.items():
        t = '\n'.join(v)
        if t.strip(): c.spec[k] = t
    return c

def build_fn(repo, c, mode='verify', smoke=None):
    """Verus text of one function. mode: verify | assume."""
    f = get_fn(repo, c.path, c.item)
    sig, body = strip_attrs(f.sig), strip_attrs_deep(f.body)
    for l, r, a in c.sigrw:
        n = [0]
        sig = rewrite(sig, l, r, n)
        if not n[0]: raise Lost("signature of %s: pattern gone: %s" % (c.item, a))
    applied = []
    # return value name
    where = []
    if 'where' in sig:
        w = sig.index('where'); where = sig[w:]; sig = sig[:w]
    ar = [i for i, t in enumerate(sig) if t == '->']
    if ar:
        i = ar[-1]
        sig = sig[:i] + ['->', G('(', [c.named, ':'] + sig[i + 1:])]
    if c.newname:
        sig[1] = c.newname
    name = sig[1]
    body = lower_macros(body)
    pre = []
    for i, t in enumerate(sig):
        if isinstance(t, G) and t.o == '(':
            if t.k[:2] == ['mut', 'self']:
                sig[i] = G('(', t.k[1:])
                body = rename(body, 'self', '__self')
                pre = ['let', 'mut', '__self', '=', 'self', ';']
            break
    for l, r, a, opt in c.rw:
        n = [0]
        body = rewrite(body, l, r, n)
        if n[0]: applied.append(a)
        elif not opt: raise Lost("%s: idiom gone: %s" % (c.item, a))
    if smoke and mode == 'verify':
        c.spec[smoke] = c.spec.get(smoke, '') + '\nproof { assert(false); /* smoke */ }\n' if smoke != 'begin' else '\nproof { assert(false); /* smoke */ }\n' + c.spec.get(smoke, '')
    L = Loops(c.spec, c.modes)
    body = L.walk(body)
    if c.expect is not None and ' '.join(L.kinds) != c.expect:
        raise Lost("%s: loop structure changed: %s" % (c.item, ' '.join(L.kinds)))
    for k in c.spec:
        m = re.match(r'loop(\d+)', k)
        if m and int(m.group(1)) >= L.n and not smoke: raise Lost("%s: fewer loops than contracted" % c.item)
        m = re.match(r'if(\d+)', k)
        if m and int(m.group(1)) >= L.ifs: raise Lost("%s: fewer branches than contracted" % c.item)
    beg = [Raw(c.spec['begin'])] if 'begin' in c.spec else []
    if 'end' in c.spec:
        # before the tail expression, or after the last statement
        if body and not ends_stmt(body):
            q = tail_start(body)
            body = body[:q] + [Raw(c.spec['end'])] + body[q:]
        elif body and ar and isinstance(body[-1], G) and body[-1].o == '{':
            # the tail is a block expression: name its value
            q = tail_start(body[:-1] + ['?'])
            body = body[:q] + ['let', '__tail', '='] + body[q:] + [';', Raw(c.spec['end']), '__tail']
        else:
            body = body + [Raw(c.spec['end'])]
    text = c.attrs
    if mode == 'assume': text += '#[verifier::external_body]\n'
    text += 'pub ' + render(sig + where) + '\n' + c.spec.get('spec', '') + '\n'
    if mode == 'assume':
        text += '{ unimplemented!() }\n'
    else:
        text += '{\n    ' + render(pre + beg + body, 4) + '\n}\n'
    if f.ty is not None and not c.free:
        if c.hdr: text = c.hdr + ' {\n' + text + '}\n'
        else:
            h = list(f.head)
            if 'for' in h: h = h[h.index('for') + 1:]
            text = 'impl' + render(f.gen) + ' ' + render(h) + ' {\n' + text + '}\n'
    return name, text, applied, L.n

def rename(ns, a, b):
    return [G(x.o, rename(x.k, a, b)) if isinstance(x, G) else (b if x == a else x) for x in ns]

def tail_start(body):
    """Index where the tail expression begins."""
    q = len(body)
    i = len(body) - 1
    while i >= 0:
        x = body[i]
        if x == ';' or isinstance(x, Raw): return i + 1
        if isinstance(x, G) and x.o == '{' and i + 1 < len(body) and not (body[i + 1] in ('.', 'else', '?') ):
            # a block statement followed by the tail
            return i + 1
        i -= 1
    return 0

def strip_attrs_deep(ns):
    return [G(x.o, strip_attrs_deep(x.k)) if isinstance(x, G) else x for x in strip_attrs(ns)]

def build_struct(repo, path, name, rws, attrs='', drop=()):
    kind, gen, g = get_struct(repo, path, name)
    k = strip_attrs_deep(g.k)
    if kind == 'struct' and g.o == '{':
        flds = []
        for f in split_top_commas(k):
            f = strip_vis(f)
            if not f or f[0] in drop: continue
            flds.append(['pub'] + f)
        k = []
        for f in flds: k += f + [',']
    elif kind == 'struct':
        k2 = []
        for f in split_top_commas(k): k2 += ['pub'] + strip_vis(f) + [',']
        k = k2
    ns = [name] + gen + [G(g.o, k)]
    for l, r in rws:
        ns = rewrite(ns, l, r, [0])
    return '%s\npub %s %s%s\n' % (attrs, kind, render(ns), ';' if kind == 'struct' and g.o == '(' else '')

def has_seq(ns, pat):
    n = len(pat)
    return any(ns[i:i + n] == pat for i in range(len(ns) - n + 1)) or any(isinstance(x, G) and has_seq(x.k, pat) for x in ns)

def strip_vis(f):
    f = strip_attrs(f)
    if f and f[0] == 'pub':
        f = f[1:]
        if f and isinstance(f[0], G) and f[0].o == '(': f = f[1:]
    return f

def split_top_commas(ns):
    out, cur, d = [], [], 0
    for x in ns:
        if x == '<': d += 1
        elif x == '>': d -= 1
        elif x == '>>': d -= 2
        if x == ',' and d <= 0: out.append(cur); cur = []
        else: cur.append(x)
    if cur: out.append(cur)
    return out

# ---------------------------------------------------------------- tiny_earley's grammar! macro
def find_macro(ns, name):
    for i, x in enumerate(ns):
        if x == name and ns[i + 1:i + 2] == ['!'] and i + 2 < len(ns) and isinstance(ns[i + 2], G): return ns[i + 2].k
        if isinstance(x, G):
            r = find_macro(x.k, name)
            if r is not None: return r
    return None

def build_grammar(repo, path):
    """The symbols and rules of `grammar! { S = [..] R = { .. } }` as spec functions. Rules are numbered from 2, as tiny_earley does."""
    g = find_macro(load(repo, path), 'grammar')
    if g is None: raise Lost("%s: no grammar! macro" % path)
    if not (len(g) == 6 and g[0] == 'S' and g[1] == '=' and isinstance(g[2], G) and g[3] == 'R' and g[4] == '=' and isinstance(g[5], G)): raise Lost("%s: unknown form of grammar!" % path)
    syms = [x for x in g[2].k if x != ',']
    rules, cur = [], []
    flat = []
    for x in g[5].k:
        flat += [x] if x != '::=' else ['::', '=']
    for x in flat:
        if x == ';': rules.append(cur); cur = []
        else: cur.append(x)
    if cur: raise Lost("%s: unknown form of grammar!" % path)
    out = ['pub spec const G_SYMS: nat = %d;' % len(syms), 'pub spec const G_RULES: nat = %d;' % len(rules)]
    for k, s in enumerate(syms): out.append('pub open spec fn s_%s() -> nat { %d }' % (s, k))
    lhs, rhs = [], []
    for k, r in enumerate(rules):
        if len(r) < 4 or r[1] != '::' or r[2] != '=' or any(x not in syms for x in [r[0]] + r[3:]): raise Lost("%s: unknown form of grammar!" % path)
        lhs.append('if id == %d { s_%s() } else ' % (k + 2, r[0]))
        rhs.append('if id == %d { seq![%s] } else ' % (k + 2, ', '.join('s_%s()' % x for x in r[3:])))
    out.append('pub open spec fn g_lhs(id: nat) -> nat { %s{ G_SYMS } }' % ''.join(lhs))
    out.append('pub open spec fn g_rhs(id: nat) -> Seq<nat> { %s{ Seq::empty() } }' % ''.join(rhs))
    return '\n'.join(out)

# ---------------------------------------------------------------- unit assembly
def assemble(repo, cdir, unit, modes=None, depth=0, state=None, smoke=None):
    """Expand contracts/<unit>.vrs. modes: item -> 'assume' for demoted functions.
    Returns (text, info); info lists functions and the lowerings applied."""
    modes = modes or {}
    state = state if state is not None else dict(seen=set(), fns=[], lost=[], lines=[])
    path = os.path.join(cdir, unit)
    if path in state['seen']: return '', state
    state['seen'].add(path)
    out = []
    lines = open(path).read().split('\n')
    i = 0
    defaults = []
    while i < len(lines):
        l = lines[i]
        m = re.match(r'\s*//@(include|assume|struct|fn|bodyis|contains|grammar)\b\s*(.*)$', l)
        if not m:
            out.append(l); i += 1
            continue
        d, a = m.group(1), m.group(2).strip()
        if d in ('include', 'assume'):
            t, _ = assemble(repo, cdir, a, modes if d == 'include' else {'*': 'assume'}, depth + 1, state, smoke)
            out.append(t); i += 1
        elif d in ('bodyis', 'contains'):
            try:
                p, rest = a.split(None, 1)
                if d == 'bodyis':
                    item, toks = rest.split(' :: ', 1)
                    f = get_fn(repo, p, item.strip())
                    if strip_attrs_deep(f.body) != parse(toks): raise Lost("%s: body is no longer `%s`" % (item, toks))
                elif not has_seq(load(repo, p), parse(rest)):
                    raise Lost("%s: no longer has `%s`" % (p, rest))
            except Lost as e:
                state['lost'].append(str(e))
            i += 1
        elif d == 'grammar':
            try: out.append(build_grammar(repo, a))
            except Lost as e: state['lost'].append(str(e))
            i += 1
        elif d == 'struct':
            # //@struct path Name [drop=f,g] [attrs...] ; following //@ty A => B lines
            parts = a.split()
            p, n = parts[0], parts[1]
            drop = ()
            at = ''
            for x in parts[2:]:
                if x.startswith('drop='): drop = x[5:].split(',')
                else: at += x + ' '
            rws = []
            i += 1
            while i < len(lines) and lines[i].strip().startswith('//@ty '):
                lft, r = cut(lines[i].strip()[6:])
                rws.append((parse(lft), parse(r))); i += 1
            out.append(build_struct(repo, p, n, rws, at, drop))
        else:
            j = i
            while lines[j].strip() != '//@end': j += 1
            c = parse_contract(lines[i:j])
            mode = modes.get('*') or modes.get(c.item) or 'verify'
            try:
                name, text, applied, nloops = build_fn(repo, c, mode, smoke)
                state['fns'].append(dict(item=c.item, path=c.path, mode=mode, lowered=applied, name=name, loops=nloops))
                out.append('// <<FN %s' % c.item)
                out.append(text)
                out.append('// FN>>')
            except Lost as e:
                state['lost'].append('%s: %s' % (c.item, e))
            i = j + 1
    return '\n'.join(out), state

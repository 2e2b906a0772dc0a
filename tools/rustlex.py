"""A small Rust lexer and item parser, enough to cut /repo's sources into functions, loops and
closures without changing a byte of the executable text."""
import re

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>b?r(?P<h>\#*)")
 |(?P<str>b?"(?:[^"\\]|\\.)*")
 |(?P<chr>b?'(?:\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\\n])')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>[0-9](?:[0-9a-zA-Z_]|\.(?=[0-9]))*)
 |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op>\.\.=|\.\.\.|<<=|>>=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|\.\.|<<|>>|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]\\])
''', re.X | re.S)


class LexError(Exception):
    pass


class Tok:
    __slots__ = ('k', 't', 's', 'e')

    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e

    def __repr__(self):
        return f'{self.t!r}'


def lex(src):
    """tokens without whitespace and comments"""
    out = []
    i, n = 0, len(src)
    while i < n:
        m = TOK.match(src, i)
        if not m:
            raise LexError(f'cannot lex at {i}: {src[i:i+30]!r}')
        k = m.lastgroup
        if m.group('bc'):
            depth, j = 1, m.end()
            while depth and j < n:
                if src.startswith('/*', j):
                    depth += 1
                    j += 2
                elif src.startswith('*/', j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        if m.group('rstr'):
            close = '"' + m.group('h')
            j = src.index(close, m.end()) + len(close)
            out.append(Tok('str', src[i:j], i, j))
            i = j
            continue
        if m.group('ws') or m.group('lc'):
            i = m.end()
            continue
        kind = [g for g in ('str', 'chr', 'life', 'num', 'id', 'op') if m.group(g)][0]
        out.append(Tok(kind, m.group(), i, m.end()))
        i = m.end()
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {v: k for k, v in OPEN.items()}


def match_delims(toks):
    """index -> index of the matching delimiter"""
    st, m = [], {}
    for i, t in enumerate(toks):
        if t.k == 'op' and t.t in OPEN:
            st.append(i)
        elif t.k == 'op' and t.t in CLOSE:
            if not st or OPEN[toks[st[-1]].t] != t.t:
                raise LexError('unbalanced delimiters')
            j = st.pop()
            m[i], m[j] = j, i
    if st:
        raise LexError('unbalanced delimiters')
    return m


class Item:
    """one item: token index range [a, b), attrs as list of token ranges, kind, name, header text"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


KINDS = {'use', 'mod', 'const', 'static', 'struct', 'enum', 'union', 'trait', 'impl', 'fn', 'type', 'extern',
         'macro_rules', 'let'}


class Source:
    def __init__(self, text):
        self.text = text
        self.toks = lex(text)
        self.m = match_delims(self.toks)

    def txt(self, a, b):
        return self.text[self.toks[a].s:self.toks[b - 1].e] if b > a else ''

    def norm(self, a, b):
        return ' '.join(t.t for t in self.toks[a:b])

    def items(self, a, b):
        out, i, T, M = [], a, self.toks, self.m
        while i < b:
            start = i
            attrs = []
            while i < b and T[i].t == '#':
                j = i + 1
                if T[j].t == '!':
                    j += 1
                end = M[j] + 1
                attrs.append((i, end))
                i = end
            if i >= b:
                break
            if T[i].t == ';':
                i += 1
                continue
            vis_a = i
            if T[i].t == 'pub':
                i += 1
                if i < b and T[i].t == '(':
                    i = M[i] + 1
            vis = (vis_a, i)
            # qualifiers
            quals = []
            k = i
            while T[k].t in ('const', 'async', 'unsafe', 'default') or (
                    T[k].t == 'extern' and T[k + 1].k == 'str'):
                if T[k].t == 'const' and T[k + 1].t not in ('fn', 'unsafe', 'async', 'extern'):
                    break
                quals.append(T[k].t)
                k += 2 if T[k].t == 'extern' else 1
            kw = T[k].t
            it = Item(a=start, attrs=attrs, vis=vis, kw_i=k, kind=kw, quals=quals, name=None, body=None)
            if kw == 'fn':
                it.name = T[k + 1].t
                j = k + 2
                while T[j].t not in ('{', ';'):
                    j = M[j] + 1 if T[j].t in OPEN else j + 1
                it.sig = (vis[1], j)
                if T[j].t == '{':
                    it.body = (j, M[j])
                    i = M[j] + 1
                else:
                    i = j + 1
            elif kw in ('impl', 'trait', 'mod', 'struct', 'enum', 'union'):
                if kw != 'impl':
                    it.name = T[k + 1].t
                j = k + 1
                while T[j].t not in ('{', ';'):
                    j = M[j] + 1 if T[j].t in OPEN else j + 1
                it.header = (k, j)
                if T[j].t == '{':
                    it.body = (j, M[j])
                    i = M[j] + 1
                else:
                    i = j + 1
            elif kw in ('use', 'const', 'static', 'type', 'extern'):
                it.name = T[k + 1].t if T[k + 1].t != 'mut' else T[k + 2].t
                j = k
                while T[j].t != ';':
                    j = M[j] + 1 if T[j].t in OPEN else j + 1
                i = j + 1
            elif T[k].k == 'id' and T[k + 1].t == '!':
                it.kind = 'macro_rules' if kw == 'macro_rules' else 'macro_call'
                j = k + 2
                it.name = kw
                if kw == 'macro_rules':
                    it.name = T[j].t
                    j += 1
                it.body = (j, M[j])
                i = M[j] + 1
                if i < b and T[i].t == ';':
                    i += 1
            else:
                raise LexError(f'unknown item at {self.text[T[k].s:T[k].s+60]!r}')
            it.b = i
            out.append(it)
        return out

    def angle_end(self, i):
        """T[i] is '<'; index just after the matching '>'"""
        depth, T = 0, self.toks
        while True:
            t = T[i].t
            if t in OPEN:
                i = self.m[i] + 1
                continue
            if t == '<':
                depth += 1
            elif t == '<<':
                depth += 2
            elif t == '>':
                depth -= 1
            elif t == '>>':
                depth -= 2
            i += 1
            if depth <= 0:
                return i

    def impl_key(self, it):
        """'Trait<X> for Type<Y>' or 'Type<Y>', lifetimes removed"""
        a, b = it.header
        i = a + 1
        if self.toks[i].t == '<':
            i = self.angle_end(i)
        toks = []
        j = i
        while j < b and self.toks[j].t != 'where':
            toks.append(self.toks[j].t)
            j += 1
        s = ''
        out = []
        for idx, t in enumerate(toks):
            if t.startswith("'") and not t.endswith("'"):
                # drop a lifetime and the comma next to it
                continue
            out.append(t)
        s = ' '.join(out)
        s = re.sub(r'< (, )+', '< ', s)
        s = re.sub(r'( ,)+ >', ' >', s)
        s = re.sub(r' < >', '', s)
        s = s.replace(' :: ', '::')
        s = re.sub(r'& ', '&', s)
        s = s.replace(' < ', '<').replace(' >', '>').replace(' ,', ',')
        return s

    # ---- inside bodies -------------------------------------------------
    def loops(self, a, b):
        """[(kw index, body open index)] for loops in tokens a..b, in source order"""
        out, T = [], self.toks
        i = a
        while i < b:
            t = T[i]
            if t.k == 'id' and t.t in ('loop', 'while', 'for'):
                if t.t == 'for' and T[i + 1].t == '<':
                    i += 1
                    continue
                j = i + 1
                while T[j].t != '{':
                    j = self.m[j] + 1 if T[j].t in OPEN else j + 1
                out.append((i, j))
            i += 1
        return out

    PREV_EXPR = {'(', ',', '=', '{', ';', '=>', 'return', '&&', '[', 'move', ':', '&', '=='}

    def closures(self, a, b):
        """[(first bar, last bar, body start, body end)]: params between bars; body token range"""
        out, T = [], self.toks
        i = a
        while i < b:
            t = T[i]
            if t.t in ('|', '||') and t.k == 'op' and T[i - 1].t in self.PREV_EXPR:
                if t.t == '||':
                    j = i
                else:
                    j = i + 1
                    while T[j].t != '|':
                        j = self.m[j] + 1 if T[j].t in OPEN else j + 1
                    # a pattern alternative such as Some(a | b) never starts right after these tokens
                k = j + 1
                if T[k].t == '->':
                    while T[k].t != '{':
                        k += 1
                s = k
                if T[k].t == '{':
                    e = self.m[k] + 1
                else:
                    while k < b and T[k].t not in (',', ';', ')', ']', '}'):
                        k = self.m[k] + 1 if T[k].t in OPEN else k + 1
                    e = k
                out.append((i, j, s, e))
                i = j + 1
                continue
            i += 1
        return out


def attr_text(src, rng):
    return src.norm(*rng)


def literals(src):
    """the literals of a source text and how often each is there: numbers as ('n', value), characters and texts as ('t', bytes)"""
    import ast
    from collections import Counter
    out = Counter()
    for t in lex(src):
        x = t.t
        # a narrow integer type: a count may be cut there
        for suffix, size in (('u8', 255), ('i8', 127), ('u16', 65535), ('i16', 32767)):
            if (t.k == 'id' and x == suffix) or (t.k == 'num' and x.endswith(suffix)):
                out[('n', size)] += 1
        try:
            if t.k == 'num':
                d = x.replace('_', '')
                base = {'0x': 16, '0o': 8, '0b': 2}.get(d[:2], 10)
                d = d[2:] if base != 10 else d
                for suffix in ('usize', 'isize', 'u128', 'i128', 'u64', 'i64', 'u32', 'i32', 'u16', 'i16', 'u8', 'i8'):
                    d = d[:-len(suffix)] if d.endswith(suffix) else d
                out[('n', int(d, base))] += 1
            elif t.k in ('str', 'chr'):
                byte = x.startswith('b')
                x = x[1:] if byte else x
                if x.startswith('r'):
                    v = x[1:].strip('#')[1:-1]
                else:
                    import re
                    v = re.sub(r'\\u\{([0-9a-fA-F_]+)\}', lambda m: '\\U%08x' % int(m.group(1).replace('_', ''), 16), x)
                    v = re.sub(r'\\\n\s*', '', v)
                    v = ast.literal_eval(v.replace('\n', '\\n'))
                raw = v.encode('latin-1') if byte else v.encode('utf-8')
                out[('t', raw.hex())] += 1
                if t.k == 'chr' and len(v) == 1:
                    out[('n', ord(v))] += 1
        except (ValueError, SyntaxError, UnicodeError):
            pass
    return out


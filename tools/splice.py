"""Cut /repo/src into functions and splice contracts into them.

usage: splice.py REPO SPECDIR OUTDIR

The executable text is copied from /repo on every run.  What is changed on the way is the fixed list of
rewrites R1..R9 below (see DESIGN.md); nothing else is touched.  Contracts, invariants, ghost items and
proof blocks come from SPECDIR/*.vs.  Writes OUTDIR/*.rs and OUTDIR/map.json.
"""
import re, hashlib, json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rename
from rustlex import Source, lex, LexError

FEATURES = {'std', 'alloc', 'heapless'}


# ---------------------------------------------------------------- spec files
class FnSpec:
    def __init__(self, key):
        self.key = key
        self.ret = None
        self.spec = ''
        self.loops = {}
        self.loop_iter = {}
        self.inserts = []      # (where, arg, text)
        self.closures = {}
        self.mode = None       # 'external_body' | 'external' | 'drop' | 'assume_spec'
        self.reason = ''
        self.attrs = []
        self.hoist = None      # the precondition that the trait method cannot state
        self.via = {}          # method name -> (wrapper, prefix of the receiver)
        self.strslice = False  # `&x[a..b]` is a slice of a str
        self.origin = ''
        self.optional = False  # not missed when the function is not there


class Specs:
    def __init__(self):
        self.fns = {}
        self.module = {}
        self.impls = {}
        self.items = {}
        self.newmods = {}
        self.ctors = {}
        self.subst = []

    def fn(self, key):
        return self.fns.setdefault(key, FnSpec(key))


def canon(key):
    return ' | '.join(p.strip() for p in key.split(' | '))


def load_specs(d, gmap=None):
    sp = Specs()
    sp.gmap = gmap or {}
    sp.inverse = {v: k for k, v in sp.gmap.items()}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if f.endswith('.rs'):
            sp.newmods[f[:-3]] = rename.subst(open(p).read(), sp.gmap)
            continue
        if not f.endswith('.vs'):
            continue
        cur, buf = None, []
        directives = []
        for ln, line in enumerate(open(p), 1):
            if line.startswith('@@'):
                cmd_, _, arg_ = line[2:].strip().partition(' ')
                directives.append([(cmd_ + ' ' + rename.subst(arg_, sp.gmap)).strip(), [], f'{f}:{ln}'])
            elif directives:
                directives[-1][1].append(rename.subst(line, sp.gmap))
            elif line.strip() and not line.startswith('#'):
                raise SystemExit(f'{f}:{ln}: text before the first directive')
        fn = None
        for d_, body, where in directives:
            body = ''.join(body)
            cmd, _, arg = d_.partition(' ')
            arg = arg.strip()
            if cmd == 'fn':
                fn = sp.fn(canon(arg))
                fn.origin = where
                if body.strip():
                    fn.spec += body
            elif cmd == 'ret':
                fn.ret = arg
                fn.spec += body
            elif cmd == 'spec':
                fn.spec += body
            elif cmd == 'loop':
                n, _, itn = arg.partition(' ')
                fn.loops[int(n)] = fn.loops.get(int(n), '') + body
                if itn.strip():
                    fn.loop_iter[int(n)] = itn.strip()
            elif cmd in ('head', 'loop-head', 'loop-tail', 'before-loop', 'after-loop', 'before', 'after', 'tail',
                         'ghost-param', 'wrap', 'arg'):
                fn.inserts.append((cmd, arg, body))
            elif cmd == 'closure':
                n, _, r = arg.partition(' ')
                fn.closures[int(n)] = (r.strip(), body)
            elif cmd in ('external_body', 'external', 'drop', 'assume_spec'):
                k = sp.fn(canon(arg)) if arg else fn
                k.mode, k.reason = cmd, body.strip()
            elif cmd == 'attr':
                fn.attrs.append(arg)
            elif cmd == 'hoist':
                fn.hoist = arg
            elif cmd == 'via':
                m_, w_, *pre = arg.split()
                fn.via[m_] = (w_, (' '.join(pre) + ' ') if pre else '')
            elif cmd == 'strslice':
                fn.strslice = True
            elif cmd == 'module':
                sp.module[arg] = sp.module.get(arg, '') + body
            elif cmd == 'impl':
                sp.impls[canon(arg)] = sp.impls.get(canon(arg), '') + body
            elif cmd == 'ctor':
                k, _, what = arg.partition(' : ')
                a_, _, r_ = what.partition(' => ')
                sp.ctors[k.strip()] = (a_.strip(), r_.strip())
            elif cmd == 'item':
                k, _, what = arg.partition(' => ')
                sp.items.setdefault(canon(k), []).append((what.strip(), body))
            elif cmd == 'end':
                fn = None
            else:
                raise SystemExit(f'{where}: unknown directive {cmd}')
    # an impl that is derived today keeps its contract when it is written out
    for k, whats in sp.items.items():
        ens = [b for w, b in whats if w == 'clone']
        if ens:
            name = k.split(' | ')[-1]
            key = f'{k.split(" | ")[0]} | Clone for {name} | clone'
            if key not in sp.fns:
                fn = sp.fn(key)
                fn.ret, fn.optional = 'r', True
                fn.spec = 'ensures ' + ens[0]
                fn.inserts = [('head', '', b) for w, b in whats if w == 'clone-head']
    return sp


# ---------------------------------------------------------------- cfg
def cfg_eval(toks):
    """toks: token texts of the predicate"""
    pos = 0

    def pred():
        nonlocal pos
        name = toks[pos]
        pos += 1
        if name in ('any', 'all', 'not'):
            pos += 1  # (
            vals = []
            while toks[pos] != ')':
                vals.append(pred())
                if toks[pos] == ',':
                    pos += 1
            pos += 1
            return {'any': any(vals), 'all': all(vals), 'not': not all(vals)}[name]
        if pos < len(toks) and toks[pos] == '=':
            v = toks[pos + 1].strip('"')
            pos += 2
            if name == 'feature':
                return v in FEATURES
            if name == 'target_pointer_width':
                return v == '64'
            return False
        return False
    return pred()


DROP_ATTR = {'doc', 'allow', 'warn', 'deny', 'must_use', 'inline', 'non_exhaustive', 'track_caller', 'cold'}


def digest(s):
    return hashlib.sha1(s.encode()).hexdigest()[:16]


KEEP = {'if', 'else', 'match', 'loop', 'while', 'for', 'in', 'return', 'break', 'continue', 'let', 'fn', 'move', 'unsafe'}


def skeleton(src, it, back={}):
    """what of a function its proof is written against: control flow, bindings and calls (not operators or literals)"""
    if it.body is None:
        return digest(src.norm(it.sig[0], it.b))
    T, out, skip = src.toks, [], 0
    for i in range(it.body[0], it.body[1]):
        t = T[i]
        nx = T[i + 1].t if i + 1 < len(T) else ''
        if t.t == '#' and nx == '[' and i >= skip:
            skip = src.m[i + 1] + 1
        if i < skip:
            continue
        if t.t in KEEP or t.t in ('=>', '?', ';', '{', '}'):
            out.append(t.t)
        elif t.k == 'id' and nx in ('(', '!') or nx == '::' and t.k == 'id':
            out.append(back.get(t.t, t.t) + nx)
    return digest(' '.join(out))


OPENING = ('(', '[', '{')
MIDWAY = ('=', '(', '[', ',', '.', '&', '&&', '*', '!', '||', '::', '+', '-', '==', '!=', 'return', 'if', 'match', 'in')


def calls(src, it, back={}):
    """the functions, macros and overloadable operators a function uses"""
    if it.body is None:
        return None
    T, out, skip = src.toks, set(), 0
    for i in range(it.body[0], it.body[1]):
        nx = T[i + 1].t if i + 1 < len(T) else ''
        if T[i].t == '#' and nx == '[' and i >= skip:
            skip = src.m[i + 1] + 1
        if i >= skip and T[i].k == 'id' and nx in ('(', '!', '::') and not T[i].t[0].isupper():
            out.add(back.get(T[i].t, T[i].t))
        elif i >= skip and (T[i].t in ('==', '!=', '?', '<', '>', '<=', '>=') or T[i].t == '[' and (T[i - 1].k == 'id' or T[i - 1].t in (')', ']'))):
            out.add(T[i].t)
    return sorted(out)


def frame(src, it, back={}):
    """what the annotations inside a body hang on: its loops' kinds and headers, its closures and its mutable variables"""
    if it.body is None:
        return None
    T, out, (a, b) = src.toks, [], it.body
    for kw, op in src.loops(a + 1, b):
        out.append(' '.join(back.get(T[i].t, T[i].t) for i in range(kw, op)))
    for c in src.closures(a + 1, b):
        out.append('|' + ' '.join('_' if T[i].k == 'id' else T[i].t for i in range(c[0], c[1])))
    for i in range(a, b):
        if T[i].t == 'mut' and T[i + 1].k == 'id' and T[i - 1].t != '&':
            out.append('mut ' + T[i + 1].t)
    return digest('\n'.join(out))


def T_vis(src, it):
    """the item's own visibility text; '-' when it has none"""
    return src.txt(it.vis[0], it.vis[1]) or '-'


class Splicer:
    def __init__(self, repo, specs, force_external=()):
        self.repo, self.sp = repo, specs
        self.force_external = set(force_external)
        self.out = []           # (text, origin) pieces of the current file
        self.fnmap = []         # {key, file, gen_start, gen_end, src_line,...}
        self.lost = []          # anchors not found
        self.used = set()
        self.new_fns = []
        self.rewrites = {}
        self.base = {}          # the functions the contracts were written against (baseline.json)
        self.renamed = {}
        self.probe = None

    def note(self, r):
        self.rewrites[r] = self.rewrites.get(r, 0) + 1

    # attributes: returns (keep?, text of kept attrs, derives)
    def attrs(self, src, it, key):
        keep, out = True, []
        for a, b in it.attrs:
            toks = [t.t for t in src.toks[a + 2:b - 1]] if src.toks[a + 1].t == '[' else []
            if not toks:
                continue
            if toks[0] == 'test':
                return False, ''
            if toks[0] == 'cfg':
                if not cfg_eval(toks[2:-1]):
                    return False, ''
                continue
            if toks[0] == 'cfg_attr' or toks[0] in DROP_ATTR or toks[0] == 'rustfmt':
                continue
            if toks[0] == 'derive':
                names = [t for t in toks[2:-1] if t != ',']
                for what, body in self.sp.items.get(key, []):
                    if what == 'derive':
                        add = [x for x in body.split() if not x.startswith('-')]
                        rem = [x[1:] for x in body.split() if x.startswith('-')]
                        names = [n for n in names if n not in rem] + add
                        self.note('R-DERIVE')
                # Debug is formatting for developers: not part of the verified text
                if 'Debug' in names:
                    names.remove('Debug')
                out.append('#[derive(' + ', '.join(names) + ')]' if names else '')
                continue
            out.append(src.txt(a, b))
        return keep, ' '.join(o for o in out if o)

    def file(self, name):
        text = open(os.path.join(self.repo, 'src', name + '.rs')).read()
        self.mod = name
        src = Source(text)
        self.buf = ''
        self.srcname = name + '.rs'
        self.emit_items(src, src.items(0, len(src.toks)), name)
        self.buf += self.sp.module.get(name, '')
        self.used.add(('module', name))
        return self.buf

    def emit(self, s):
        self.buf += s

    def line_of(self, src, tok_i):
        return src.text.count('\n', 0, src.toks[tok_i].s) + 1

    def emit_items(self, src, items, prefix, in_impl=None):
        macros = {}
        # items of traits and of trait impls take no visibility of their own
        self.plain_vis = in_impl is not None and (in_impl.startswith('trait ') or ' for ' in in_impl)
        for it in items:
            if it.kind == 'macro_rules':
                macros[it.name] = it
        for it in items:
            key = f'{prefix} | - | {it.name}' if in_impl is None else f'{prefix} | {in_impl} | {it.name}'
            if it.kind in ('impl',):
                key = f'{prefix} | {src.impl_key(it)}'
            elif it.kind == 'trait':
                key = f'{prefix} | trait {it.name}'
            elif it.kind in ('struct', 'enum', 'static', 'const') and in_impl is None:
                key = f'{prefix} | {it.name}'
            keep, attrs = self.attrs(src, it, key)
            if not keep:
                self.note('R-CFG')
                continue
            modes = [w for w, _ in self.sp.items.get(key, [])]
            if 'drop' in modes:
                self.note('R-DROP')
                self.used.add(('item', key))
                continue
            if it.kind == 'macro_rules':
                continue
            if it.kind == 'macro_call':
                if it.name in macros:
                    self.expand(src, macros[it.name], it, prefix)
                    continue
                raise LexError(f'{prefix}: unknown macro {it.name}!')
            if it.kind == 'fn':
                sp = self.sp.fns.get(key)
                if sp and sp.hoist is not None and ' for ' in (in_impl or ''):
                    # the trait's entry point: well-formedness is the type's invariant (private fields; every constructor and
                    # method ensures it), the body is verified as an inherent method of the same name
                    assume = f'proof {{ assume({sp.hoist}); }} ' if sp.hoist else ''
                    self.emit(src.txt(*it.sig) + f' {{ {assume}Self::{it.name}(self) }}\n')
                    self.hoisted.append((it, key, attrs))
                    continue
                self.emit_fn(src, it, key, attrs)
                continue
            if it.kind in ('impl', 'trait'):
                a, b = it.header
                self.emit(attrs + '\n' + ('pub ' if it.kind == 'trait' else '') + src.txt(a, b) + ' {\n')
                ghost = self.sp.impls.get(key)
                if ghost:
                    self.used.add(('impl', key))
                    self.emit(ghost + '\n')
                inner = src.items(it.body[0] + 1, it.body[1])
                sub = key.split(' | ', 1)[1]
                self.hoisted = []
                self.emit_items(src, inner, prefix, sub)
                self.plain_vis = False
                self.emit('}\n')
                if self.hoisted:
                    # R-HOIST: a trait method whose contract needs a precondition the trait cannot state
                    gen_e = src.angle_end(it.kw_i + 1) if src.toks[it.kw_i + 1].t == '<' else it.kw_i + 1
                    f = gen_e
                    while src.toks[f].t != 'for':
                        f = src.angle_end(f) if src.toks[f].t == '<' else f + 1
                    trait = src.txt(gen_e, f)
                    self.emit(src.txt(a, gen_e) + ' ' + src.txt(f + 1, b) + ' {\n')
                    for fit, fkey, fattrs in self.hoisted:
                        start = len(self.buf)
                        self.emit_fn(src, fit, fkey, fattrs)
                        self.buf = self.buf[:start] + re.sub(r'\bSelf::([A-Z])', r'<Self as ' + trait.replace('\\', '') + r'>::\1', self.buf[start:])
                    self.emit('}\n')
                    self.note('R-HOIST')
                    self.hoisted = []
                continue
            if it.kind == 'mod':
                raise LexError(f'{prefix}: nested module {it.name}')
            if it.kind == 'static':
                self.emit_static(src, it, key, attrs)
                continue
            if it.kind == 'const':
                # R-CONST: a constant computed by a call of an executable function
                ens = [b_ for w, b_ in self.sp.items.get(key, []) if w == 'exec-const']
                if ens:
                    T = src.toks
                    j = it.kw_i
                    while T[j].t != '=':
                        j += 1
                    self.note('R-CONST')
                    self.used.add(('item', key))
                    self.emit(f'{attrs}\npub exec {src.txt(it.kw_i, j)}\n'
                              f'    ensures {ens[0]}\n{{ {src.txt(j + 1, it.b - 1)} }}\n')
                    continue
            body = src.txt(it.vis[0], it.b)
            if it.kind == 'struct' or it.kind == 'enum':
                body = self.strip_inner_attrs(src, it, 'pub(crate) ' if any(w == 'crate-fields' for w, _ in self.sp.items.get(key, [])) else 'pub ')
                if T_vis(src, it):
                    body = 'pub ' + body.lstrip()[len(T_vis(src, it)):] if T_vis(src, it) != '-' else 'pub ' + body
            elif it.kind == 'const':
                body = ('pub ' if in_impl is None or not self.plain_vis else '') + src.txt(it.kw_i, it.b)
            for what, b_ in self.sp.items.get(key, []):
                if what == 'attr':
                    attrs += ' ' + b_.strip()
            self.used.add(('item', key))
            for what, b_ in self.sp.items.get(key, []):
                if what == 'clone' and re.search(r'derive\([^)]*\bClone\b', attrs):
                    attrs = re.sub(r'\bClone\b,? ?', '', attrs)
                    heads = ' '.join(h.strip() for w, h in self.sp.items.get(key, []) if w == 'clone-head')
                    body += '\n' + self.derived_clone(src, it, b_.strip()).replace('{ match self {', '{ ' + heads + ' match self {', 1)
                    self.note('R-DERIVE')
            if it.kind == 'struct' and re.search(r'derive\([^)]*\bDefault\b', attrs):
                attrs = re.sub(r'\bDefault\b,? ?', '', attrs)
                body += '\n' + self.derived_default(src, it)
                self.note('R-DERIVE')
            self.emit(attrs + '\n' + body + '\n')

    def derived_default(self, src, it):
        """what #[derive(Default)] writes for a struct, spelled out so that it has a contract"""
        T = src.toks
        k = it.kw_i + 2
        params = []
        if T[k].t == '<':
            e = src.angle_end(k)
            params = [p.strip() for p in src.txt(k + 1, e - 1).split(',') if p.strip()]
            k = e
        while T[k].t != '{':
            if T[k].t in ';(':
                raise LexError(f'{it.name}: derived Default of a struct without named fields')
            k += 1
        end, k, fields = src.m[k], k + 1, []
        while k < end:
            while T[k].t == '#':
                k = src.m[k + 1] + 1
            while T[k + 1].t != ':':
                k += 1
            name, a = T[k].t, k + 2
            k = a
            while k < end and T[k].t != ',':
                k = src.angle_end(k) if T[k].t == '<' else src.m[k] + 1 if T[k].k == 'op' and T[k].t in '([{' else k + 1
            fields.append((name, src.txt(a, k)))
            k += 1
        names = [p.split(':')[0].strip() for p in params]
        decl = [p if p.startswith("'") else p + (' + ' if ':' in p else ': ') + 'Default' for p in params]
        ens = ', '.join(f'call_ensures(<{ty} as Default>::default, (), r.{n})' for n, ty in fields)
        return (f"impl<{', '.join(decl)}> Default for {it.name}<{', '.join(names)}> {{ fn default() -> (r: Self) ensures {ens} "
                f"{{ {it.name} {{ {', '.join(n + ': Default::default()' for n, _ in fields)} }} }} }}")

    def derived_clone(self, src, it, ens):
        """what #[derive(Clone)] writes, spelled out so that it has a contract"""
        T = src.toks
        k = it.kw_i + 2
        params = []
        if T[k].t == '<':
            e = src.angle_end(k)
            params = [p.strip() for p in src.txt(k + 1, e - 1).split(',') if p.strip()]
            k = e
        names = [p.split(':')[0].strip() for p in params]
        decl = [p if p.startswith("'") else p + (' + ' if ':' in p else ': ') + 'Clone' for p in params]
        while T[k].t not in ('{', '('):
            k += 1

        def fields(op):
            """names of named fields, or the number of positional ones"""
            named, n, k, end = [], 0, op + 1, src.m[op]
            while k < end:
                while T[k].t == '#':
                    k = src.m[k + 1] + 1
                if T[k].t == 'pub':
                    k += 1
                    if T[k].t == '(':
                        k = src.m[k] + 1
                if T[op].t == '{':
                    named.append(T[k].t)
                n += 1
                while k < end and T[k].t != ',':
                    k = src.angle_end(k) if T[k].t == '<' else src.m[k] + 1 if T[k].k == 'op' and T[k].t in '([{' else k + 1
                k += 1
            return named if T[op].t == '{' else n

        def arm(path, op):
            f = fields(op) if op is not None else 0
            if isinstance(f, list):
                return (f"{path} {{ {', '.join(f)} }} => {path} {{ {', '.join(f'{x}: {x}.clone()' for x in f)} }},")
            if f == 0:
                return f'{path} => {path},'
            xs = [f'x{i}' for i in range(f)]
            return f"{path}({', '.join(xs)}) => {path}({', '.join(x + '.clone()' for x in xs)}),"
        arms = []
        if it.kind == 'struct':
            arms.append(arm(it.name, k))
        else:
            i, end = k + 1, src.m[k]
            while i < end:
                while T[i].t == '#':
                    i = src.m[i + 1] + 1
                name = T[i].t
                op = i + 1 if T[i + 1].t in ('(', '{') else None
                arms.append(arm(f'{it.name}::{name}', op))
                i = (src.m[op] if op is not None else i) + 1
                if i < end and T[i].t == ',':
                    i += 1
        targs = f"<{', '.join(names)}>" if names else ''
        gen = f"<{', '.join(decl)}>" if decl else ''
        return (f"impl{gen} Clone for {it.name}{targs} {{ fn clone(&self) -> (r: Self) ensures {ens} "
                f"{{ match self {{ {' '.join(arms)} }} }} }}")

    def strip_inner_attrs(self, src, it, vis='pub '):
        """a struct/enum item without the attributes (docs, cfg) on its fields"""
        T = src.toks
        out, i, pos = '', it.vis[0], T[it.vis[0]].s
        # R-VIS: every field is made visible (contracts mention them; no run-time effect)
        fields = set()
        if it.kind == 'struct':
            op = next((k for k in range(it.kw_i, it.b) if T[k].t in '{(' and T[k].k == 'op'), None)
            if op is not None:
                end, k = src.m[op], op + 1
                while k < end:
                    while T[k].t == '#':
                        k = src.m[k + 1] + 1
                    if k >= end:
                        break
                    fields.add(k)
                    while k < end and T[k].t != ',':
                        if T[k].t == '<':
                            k = src.angle_end(k)
                        elif T[k].k == 'op' and T[k].t in '([{':
                            k = src.m[k] + 1
                        else:
                            k += 1
                    k += 1
        while i < it.b:
            if i in fields:
                fields.discard(i)
                e = i
                if T[i].t == 'pub':
                    e = i + 1
                    if T[e].t == '(' and T[e + 1].t in ('crate', 'super', 'self', 'in'):
                        e = src.m[e] + 1
                out += src.text[pos:T[i].s] + vis
                pos = T[e].s
                self.note('R-VIS')
                i = e
                continue
            if T[i].t == '#' and T[i + 1].t == '[':
                e = src.m[i + 1] + 1
                out += src.text[pos:T[i].s]
                toks = [t.t for t in T[i + 2:e - 1]]
                if toks[0] == 'cfg' and not cfg_eval(toks[2:-1]):
                    raise LexError('cfg-disabled field')
                pos = T[e].s
                i = e
                continue
            i += 1
        out += src.text[pos:T[it.b - 1].e]
        return out

    def emit_static(self, src, it, key, attrs):
        """R-STATIC: `static N: T = { const A..; expr };` becomes `exec static N: T ensures .. { expr }` with the
        block's constants substituted"""
        T = src.toks
        i = it.kw_i
        # static NAME : TYPE = EXPR ;
        j = i
        while T[j].t != '=':
            j = src.m[j] + 1 if T[j].t in '([{' and T[j].k == 'op' else j + 1
        ty = src.txt(i + 3, j)
        a, b = j + 1, it.b - 1
        consts = {}
        if T[a].t == '{':
            a, b = a + 1, b - 1
            while T[a].t == 'const':
                k = a
                while T[k].t != '=':
                    k += 1
                e = k
                while T[e].t != ';':
                    e += 1
                consts[T[a + 1].t] = src.txt(k + 1, e)
                a = e + 1
        ens = ''
        for what, body in self.sp.items.get(key, []):
            if what == 'ensures':
                ens = body
                self.used.add(('item', key))
        out = ' '.join(consts.get(t.t, t.t) for t in T[a:b])
        amp = ty.strip().startswith('&')
        if amp:
            ty = "&'static " + ty.strip()[1:].strip().removeprefix("'static")
        self.note('R-STATIC')
        self.emit(f"pub exec static {it.name}: {ty}\n    ensures {ens}\n{{ {out} }}\n")

    def expand(self, src, mac, call, prefix):
        """R-MACRO: expand a single-arm macro_rules! whose parameters are plain fragments"""
        T = src.toks
        a, b = mac.body
        # { (params) => { body } ; }
        p0, p1 = a + 1, src.m[a + 1]
        params = []
        i = p0 + 1
        while i < p1:
            if T[i].t == '$':
                params.append(T[i + 1].t)
                i += 4
            else:
                i += 1
        q = p1 + 2
        body = (q + 1, src.m[q])
        args, cur, i = [], [], call.body[0] + 1
        while i < call.body[1]:
            if T[i].t == ',':
                args.append(' '.join(cur))
                cur = []
            else:
                cur.append(T[i].t)
            i += 1
        if cur:
            args.append(' '.join(cur))
        if len(args) != len(params):
            raise LexError(f'macro {mac.name}: {len(args)} args for {len(params)} params')
        env = dict(zip(params, args))
        out, i = [], body[0]
        while i < body[1]:
            if T[i].t == '$' and T[i + 1].t in env:
                out.append(env[T[i + 1].t])
                i += 2
            elif T[i].t == '#' and T[i + 1].t == '[' and T[i + 2].t == 'doc':
                i = src.m[i + 1] + 1
            else:
                out.append(T[i].t)
                i += 1
        self.note('R-MACRO')
        sub = Source(' '.join(out))
        self.emit_items(sub, sub.items(0, len(sub.toks)), prefix)

    # ------------------------------------------------------------ functions
    def find_pattern(self, src, body, pat):
        n = 0
        m = re.match(r'(.*?)\s*#(\d+)$', pat)
        if m:
            pat, n = m.group(1), int(m.group(2))
        want = [t.t for t in lex(pat)]
        a, b = body
        for i in range(a, b - len(want) + 1):
            if [t.t for t in src.toks[i:i + len(want)]] == want:
                if n == 0:
                    return i, i + len(want)
                n -= 1
        return None

    def emit_fn(self, src, it, key, attrs):
        T = src.toks
        sp = self.sp.fns.get(key)
        self.used.add(('fn', key))
        base_key = rename.subst(key, self.sp.inverse)
        toks = [t.t for t in T[it.sig[0]:it.b]]
        if sp and base_key in self.base:
            old = self.base[base_key]['text']
            m = rename.local_map([self.sp.gmap.get(t, t) for t in old], toks, rename.fn_words(sp))
            if m:
                self.renamed[base_key] = m
                sp = rename.rename_fn(sp, m)
        if sp and sp.mode == 'drop':
            self.note('R-DROP')
            return
        sig_a, sig_b = it.sig
        sig = [(T[i].s, T[i].e) for i in (sig_a, sig_b - 1)]
        sig_text = src.text[T[sig_a].s:T[sig_b - 1].e]
        # where clause and return type
        depth_i = it.kw_i
        ret_i = where_i = None
        j = it.kw_i + 2
        if T[j].t == '<':
            j = src.angle_end(j)
        j = src.m[j] + 1     # after the parameter list
        if j < sig_b and T[j].t == '->':
            ret_i = j
            k = j + 1
            while k < sig_b and T[k].t != 'where':
                k = src.angle_end(k) if T[k].t == '<' else k + 1
            ret_end = k
        else:
            ret_end = j
        if ret_end < sig_b and T[ret_end].t == 'where':
            where_i = ret_end
        pre = src.text[T[it.vis[0]].s if it.vis[0] < it.vis[1] else T[sig_a].s:T[j - 1].e]
        if not self.plain_vis:
            pre = 'pub ' + src.text[T[sig_a].s:T[j - 1].e]
        ret = ''
        self.ret_type = None
        if ret_i is not None:
            rt = self.ret_type = src.txt(ret_i + 1, ret_end)
            ret = f' -> ({sp.ret}: {rt})' if sp and sp.ret else f' -> {rt}'
        if self.mut_self(src, it):
            pre = re.sub(r'\(\s*mut self', '(self', pre)
        where = src.txt(where_i, sig_b) if where_i is not None else ''
        if where and not where.rstrip().endswith(','):
            where = where.rstrip() + ','
        extra = ' '.join(sp.attrs) if sp else ''
        forced = base_key in self.force_external
        if sp and sp.mode in ('external_body', 'external'):
            extra += f' #[verifier::{sp.mode}]'
        elif forced and it.body:
            extra += ' #[verifier::external_body]'
        start = self.buf.count('\n') + 1
        head = f'{attrs} {extra}\n{pre}{ret} {where}\n'
        self.emit(head)
        if sp and sp.spec.strip():
            self.emit(sp.spec.rstrip() + '\n')
        if it.body is None:
            self.emit(';\n')
        elif forced and 'impl ' not in (self.ret_type or ''):
            self.emit('{ unimplemented!() }\n')      # its annotations may name what is no longer there
        else:
            self.emit_body(src, it, key, sp)
        nl, nc = 0, 0
        if it.body is not None:
            nl = len(src.loops(it.body[0] + 1, it.body[1]))
            nc = len(src.closures(it.body[0] + 1, it.body[1]))
        self.fnmap.append(dict(key=base_key, name=key, text=toks, mod=self.mod, gen_start=start, gen_end=self.buf.count('\n') + 1,
                               src=f'src/{self.srcname}:{self.line_of(src, it.kw_i)}', loops=nl, closures=nc,
                               contract=bool(sp and (sp.spec.strip() or sp.mode)), mode=(sp.mode if sp else None),
                               has_body=it.body is not None,
                               skel=skeleton(src, it, self.sp.inverse),
                               calls=calls(src, it, self.sp.inverse), frame=frame(src, it, self.sp.inverse),
                               light=nl + nc == 0 and not (sp and any(w[0] != 'head' for w in sp.inserts)),
                               forced=forced))
        if sp is None:
            self.new_fns.append(base_key)

    def mut_self(self, src, it):
        T = src.toks
        j = it.kw_i + 2
        if T[j].t == '<':
            j = src.angle_end(j)
        return T[j + 1].t == 'mut' and T[j + 2].t == 'self'

    def emit_body(self, src, it, key, sp):
        T = src.toks
        a, b = it.body
        ins = {}      # char offset -> list of (prio, text)

        def add(off, text, prio=0):
            ins.setdefault(off, []).append((prio, text))
        skips_for = []
        for n, c in enumerate(src.closures(a + 1, b)):
            if not (sp and n in sp.closures) and self.tests(src, c):
                i, j, s, e = c
                self.note('R-TEST')
                what = re.sub(r'\.\s*(is_ascii\w*)\s*\(', r'.said_\1(', src.txt(s, e))
                add(T[j].e, f' -> (r_: bool) ensures r_ == ({what}) ', 5)
                add(T[s].s, '{ ')
                add(T[e - 1].e, ' }', -1)
        if sp:
            loops = src.loops(a + 1, b)
            closures = src.closures(a + 1, b)
            for n, text in sp.loops.items():
                if n >= len(loops):
                    self.lost.append((key, f'loop {n}'))
                    continue
                if sp.loop_iter.get(n) == '=':
                    # R-FOR: `for P in E B` is `{ let mut it = E; loop { match it.next() { Some(P) => B, None => break } } }` (E an iterator)
                    kw, op = loops[n]
                    k = kw + 1
                    while k < op and T[k].t != 'in':
                        k = src.m[k] + 1 if T[k].k == 'op' and T[k].t in '([{' else k + 1
                    if T[kw].t != 'for' or T[kw - 1].t == ':' or k >= op:
                        self.lost.append((key, f'for loop {n}'))
                        continue
                    skips_for.append((T[kw].s, T[k].e, f'{{ let ghost mut n_{n}: int = 0; let mut it_{n} ='))
                    skips_for.append((T[op].s, T[op].e, f'; loop\n{text}{{'))
                    add(T[op].e, f' match it_{n}.next() {{ Some({src.txt(kw + 1, k)}) => {{ proof {{ n_{n} = n_{n} + 1; }} ', 50)
                    add(T[src.m[op]].s, ' } None => break, } ', 60)
                    add(T[src.m[op]].e, ' }', -60)
                    self.note('R-FOR')
                    continue
                add(T[loops[n][1]].s, '\n' + text)
                if n in sp.loop_iter:
                    k = loops[n][0]
                    while k < loops[n][1] and T[k].t != 'in':
                        k += 1
                    if T[k].t != 'in':
                        self.lost.append((key, f'for loop {n}'))
                        continue
                    add(T[k].e, f' {sp.loop_iter[n]}: ')
            for n, (r, text) in sp.closures.items():
                if n >= len(closures):
                    self.lost.append((key, f'closure {n}'))
                    continue
                i, j, s, e = closures[n]
                r, text = self.built(src, closures[n], r) or (r, text)
                if T[j + 1].t == '->':
                    self.lost.append((key, f'closure {n} has a return type'))
                    continue
                self.note('R-CLOSURE')
                add(T[j].e, f' {r}\n{text}', 5)
                if T[s].t != '{' and i not in self.pat_closures(src, a, b):
                    add(T[s].s, '{ ')
                    add(T[e - 1].e, ' }', -1)
            for where, arg, text in sp.inserts:
                if where == 'head':
                    add(T[a].e, '\n' + text)
                elif where == 'tail':
                    add(T[b].s, text)
                elif where in ('loop-head', 'loop-tail', 'before-loop', 'after-loop'):
                    n = int(arg)
                    if n >= len(loops):
                        self.lost.append((key, f'{where} {n}'))
                        continue
                    kw, op = loops[n]
                    if where == 'loop-head':
                        add(T[op].e, '\n' + text)
                    elif where == 'loop-tail':
                        add(T[src.m[op]].s, text)
                        for k in range(op, src.m[op]):
                            # a `continue` of this very loop ends an iteration as well
                            if T[k].t == 'continue' and T[k + 1].k != 'life' and not any(op < o < k < src.m[o] for _, o in loops):
                                add(T[k].s, '{ ' + text)
                                add(T[k].e, ' }')
                    elif where == 'before-loop':
                        k = kw
                        if T[k - 1].t == ':' and T[k - 2].k == 'life':
                            k -= 2
                        add(T[k].s, text)
                    else:
                        add(T[src.m[op]].e, '\n' + text)
                elif where == 'arg':
                    f = self.find_pattern(src, (a + 1, b), arg)
                    if f is None or T[f[1]].t != '(':
                        self.lost.append((key, f'{where} {arg}'))
                        continue
                    add(T[f[1]].e, '{\n' + text + '\n')
                    k = src.m[f[1]] - 1
                    add(T[k - 1 if T[k].t == ',' else k].e, ' }')
                elif where in ('before', 'after'):
                    f = self.find_pattern(src, (a + 1, b), arg)
                    if f is None:
                        self.lost.append((key, f'{where} {arg}'))
                        continue
                    i, j = f
                    if where == 'before' and T[i - 1].t == '=>' and text.strip():
                        # the arm of a match: make it a block
                        k = i
                        while T[k].t not in (',', '}'):
                            k = src.m[k] + 1 if T[k].k == 'op' and T[k].t in OPENING else k + 1
                            if T[k - 1].t == '}' and T[i].t == '{':
                                break
                        add(T[i].s, '{\n' + text + '\n', -50)
                        add(T[k - 1].e, ' }', 50)
                        continue
                    if where == 'before' and T[i - 1].t in MIDWAY:
                        self.lost.append((key, f'{where} {arg}'))
                        continue
                    add(T[i].s if where == 'before' else T[j - 1].e, '\n' + text + '\n')
        # R-CONTINUE: `if c { .. continue; } rest` at the top of a for loop's body => `if c { .. ; } else { rest }`
        for kw, op in src.loops(a + 1, b):
            k, end = op + 1, src.m[op]
            while T[kw].t == 'for' and k < end:
                if T[k].t != 'if' or T[k - 1].t not in ('{', '}', ';'):
                    k = src.m[k] + 1 if T[k].k == 'op' and T[k].t in OPENING else k + 1
                    continue
                while T[k].t != '{':
                    k = src.m[k] + 1 if T[k].k == 'op' and T[k].t in OPENING else k + 1
                c = src.m[k] - 2
                if T[src.m[k] + 1].t != 'else' and T[c].t == 'continue' and T[c + 1].t == ';':
                    skips_for.append((T[c].s, T[c].e, ''))
                    add(T[src.m[k]].e, ' else {')
                    add(T[end].s, ' }', 60)
                    self.note('R-CONTINUE')
                k = src.m[k] + 1
        if self.probe == 'head':
            add(T[a].e, ' proof { assert(false); } ', 90)
        # rewrites inside bodies
        skip = {}
        self.body_rewrites(src, a, b, key, skip, add, it)
        for s_, e_, rep in skips_for:
            skip[s_] = (e_, rep)
        out, pos = '', T[a].s
        points = sorted(set(ins) | set(skip))
        for p in points:
            if p < pos:
                continue
            out += src.text[pos:p]
            for _, t in sorted(ins.get(p, []), key=lambda x: x[0]):
                out += t
            pos = p
            if p in skip:
                end, rep = skip[p]
                out += rep
                pos = end
        out += src.text[pos:T[b].e]
        if self.probe == 'exit':
            out = '{ let r__' + (f': {self.ret_type}' if self.ret_type and 'impl ' not in self.ret_type else '') + ' = ' + out + '; proof { assert(false); } r__ }'
        self.emit(out + '\n')

    def receiver(self, src, i):
        """first token of the postfix chain that ends before the `.` at i"""
        T, k = src.toks, i - 1
        while True:
            if T[k].t in (')', ']'):
                k = src.m[k] - 1
                if T[k].k not in ('id', 'num') or T[k].t in ('in', 'return', 'let', 'match', 'if'):
                    return k + 1
                continue
            if T[k].k in ('id', 'num'):
                if T[k - 1].t in ('.', '::'):
                    k -= 2
                    continue
                return k
            return k + 1

    def built(self, src, c, r):
        """R-BUILD: a closure that only builds a struct or a variant ensures just that its value is what its body says"""
        T, (i, j, s, e) = src.toks, c
        if T[i + 1].t == '(' or any(T[k].t in ('mut', '&') for k in range(i, j)):
            return
        if T[s].t == '{':
            s, e = s + 1, e - 1
        k = s
        if s >= e or T[s].k != 'id' or not T[s].t[0].isupper():
            return
        while k < e:
            t = T[k]
            if t.t == 'offset' and T[k - 1].t == '.' and T[k - 2].t == 'tokenizer' and T[k + 1].t == '(':
                k += 3
                continue
            if not (t.k in ('num', 'str', 'chr') or t.t in ('::', '{', '}', '(', ')', ',', ':', '.')
                    or t.k == 'id' and (k + 1 >= e or T[k + 1].t not in ('(', '!') or t.t[0].isupper())):
                return
            k += 1
        self.note('R-BUILD')
        name = r.strip('->( ').split(':')[0].strip()
        text = re.sub(r'\.\s*tokenizer\s*\.\s*offset\s*\(\s*\)', '.tokenizer.source.offset', src.txt(s, e))
        return r, f'    ensures crate::spec::is_just({name}, {text})\n'

    def tests(self, src, c):
        """R-TEST: is this a closure without contract that only compares what it is given?"""
        T, (i, j, s, e) = src.toks, c
        if j < i + 2 or any(T[k].t in ('(', '&', '_', 'mut') for k in range(i + 1, j)) or T[j + 1].t == '->' or T[s].t == '{':
            return False
        top = T[s].t == '!' or T[s].t == 'matches'
        k = s
        while k < e:
            t = T[k]
            if t.t == 'matches' and T[k + 1].t == '!':
                k = src.m[k + 2] + 1
                continue
            if t.t.startswith('is_ascii') and T[k - 1].t == '.' and T[k + 1].t == '(' and T[k + 2].t == ')':
                top, k = True, k + 3
                continue
            if t.t in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'):
                top = True
            elif not (t.k in ('num', 'str', 'chr') or t.t in ('.', '*', '(', ')', '::', '!', '&', '|', '+', '-')
                      or t.k == 'id' and (k + 1 >= e or T[k + 1].t not in ('(', '!', '{')) and t.t not in ('if', 'match', 'as', 'move')):
                return False
            k += 1
        return top

    def pat_closures(self, src, a, b):
        """closures whose parameters are patterns: first-bar index -> (i, j, s, e)"""
        out = {}
        for i, j, s, e in src.closures(a + 1, b):
            if j > i + 1 and src.toks[i + 1].t == '(' and src.m[i + 1] == j - 1:
                out[i] = (i, j, s, e)
        return out

    def body_rewrites(self, src, a, b, key, skip, add, it):
        T = src.toks
        # R-PAT: |(a, b)| e  =>  |p_| { let (a, b) = p_; e }
        for i, j, s, e in self.pat_closures(src, a, b).values():
            unit = j - 1 == i + 2
            skip[T[i].s] = (T[j].e, '|p_: ()|' if unit else '|p_|')
            add(T[s].s, '{ ' if unit else '{ let ' + src.txt(i + 1, j) + ' = p_; ', 9)
            add(T[e - 1].e, ' }', -1)
            self.note('R-PAT')
        for i, j, s, e in src.closures(a + 1, b):
            if j == i + 2 and T[i + 1].t == '_':
                skip[T[i].s] = (T[j].e, '|p_|')
                self.note('R-PAT')
        # R-BREAK: `break value` of the loop that is the function's tail expression is `return value`
        loops = src.loops(a + 1, b)
        for kw, op in loops:
            if src.m[op] == b - 1 and T[kw].t == 'loop':
                inner = [(x, src.m[y]) for x, y in loops if x > kw] + [(x, z) for x, _, y, z in
                                                                       src.closures(a + 1, b)]
                for i in range(op, src.m[op]):
                    if T[i].t == 'break' and T[i + 1].t not in (';', '}', ',') and not any(
                            x <= i < y for x, y in inner):
                        skip[T[i].s] = (T[i].e, 'return')
                        self.note('R-BREAK')
        # R-CTOR: an enum constructor used as a function value becomes the closure it stands for
        for i in range(a + 1, b - 3):
            if T[i].t in ('(', ',') and T[i + 2].t == '::' and T[i + 4].t in (')', ','):
                path = T[i + 1].t + '::' + T[i + 3].t
                if path in self.sp.ctors:
                    at, rt = self.sp.ctors[path]
                    skip[T[i + 1].s] = (T[i + 3].e, f'|x_: {at}| -> (r_: {rt}) ensures r_ == {path}(x_) '
                                                    f'{{ {path}(x_) }}')
                    self.note('R-CTOR')
        # R-MUTSELF: a by-value `mut self` parameter
        if self.mut_self(src, it):
            for i in range(a + 1, b):
                if T[i].t == 'self':
                    skip[T[i].s] = (T[i].e, 'self_')
            add(T[a].e, ' let mut self_ = self; ', -5)
            self.note('R-MUTSELF')
        i = a
        while i < b:
            t = T[i]
            # R-CFG inside bodies and attributes on statements/arms
            if t.t == '#' and T[i + 1].t == '[':
                e = src.m[i + 1] + 1
                toks = [x.t for x in T[i + 2:e - 1]]
                if toks[0] == 'cfg' and not cfg_eval(toks[2:-1]):
                    raise LexError(f'{key}: cfg-disabled code inside a body')
                skip[t.s] = (T[e - 1].e, '')
                i = e
                continue
            # R-BYTES: a byte string literal is the array of its bytes
            if t.t.startswith('b"'):
                skip[t.s] = (t.e, '&[' + ', '.join(f'{x}u8' for x in eval(t.t)) + ']')
                self.note('R-BYTES')
                i += 1
                continue
            # R-PANIC: the message of a panicking macro is dropped
            if t.t in ('unreachable',) and T[i + 1].t == '!' and T[i + 2].t == '(':
                e = src.m[i + 2]
                skip[t.s] = (T[e].e, 'crate::trusted::never()')
                self.note('R-PANIC')
                i = e + 1
                continue
            # R-ITER: adaptors on slice iterators go through wrappers that make the same call
            if t.t == '.' and T[i + 1].t in ('enumerate', 'cloned', 'find_map') and T[i + 2].t == '(':
                k = self.receiver(src, i)
                add(T[k].s, f'crate::trusted::{T[i + 1].t}(', 1)
                e = src.m[i + 2]
                skip[t.s] = (T[i + 2].e, '' if e == i + 3 else ', ')
                self.note('R-ITER')
                i += 3
                continue
            sp_ = self.sp.fns.get(key)
            if t.t == '.' and sp_ and T[i + 1].t in sp_.via and T[i + 2].t == '(':
                w_, pre = sp_.via[T[i + 1].t]
                add(T[self.receiver(src, i)].s, f'crate::trusted::{w_}({pre}', 1 - i)
                e = src.m[i + 2]
                skip[t.s] = (T[i + 2].e, '' if e == i + 3 else ', ')
                self.note('R-ITER')
                i += 3
                continue
            # R-STRSLICE: a range of a str goes through a wrapper that takes the same range
            if t.t == '&' and sp_ and sp_.strslice:
                k = i + 1
                while T[k].k == 'id' or T[k].t == '.':
                    k += 1
                if k > i + 1 and T[k].t == '[':
                    e = src.m[k]
                    dots = [q for q in range(k + 1, e) if T[q].t == '..']
                    if len(dots) == 1:
                        d_ = dots[0]
                        skip[t.s] = (t.e, 'crate::trusted::str_range(')
                        skip[T[k].s] = (T[k].e, ', ')
                        skip[T[d_].s] = (T[d_].e, ', ')
                        skip[T[e].s] = (T[e].e, ')')
                        self.note('R-STRSLICE')
                        i += 1
                        continue
            # R-HASHER: calls on the generic hasher go through wrappers that make the same call
            if (t.k == 'id' and T[i + 1].t == '.' and T[i + 2].t in ('write', 'write_u8') and T[i + 3].t == '('
                    and ' | Hash for ' in key.replace('hash::Hash', 'Hash')):
                skip[t.s] = (T[i + 3].e, f'crate::trusted::hasher_{T[i + 2].t}({t.t}, ')
                self.note('R-HASHER')
                i += 4
                continue
            # R-WRITE: write!(w, "lit{}lit", x) becomes the calls it stands for
            if t.t == 'write' and T[i + 1].t == '!' and T[i + 2].t == '(':
                e = src.m[i + 2]
                args, depth_start, k = [], i + 3, i + 3
                while k < e:
                    if T[k].t == ',':
                        args.append((depth_start, k))
                        depth_start = k + 1
                        k += 1
                    else:
                        k = src.m[k] + 1 if T[k].t in '([{' and T[k].k == 'op' else k + 1
                if depth_start < e:
                    args.append((depth_start, e))
                fmt = eval(T[args[1][0]].t)
                parts = re.split(r'(\{\{|\}\}|\{\w*\})', fmt)
                if any(('{' in p or '}' in p) and not re.fullmatch(r'\{\{|\}\}|\{\w*\}', p) for p in parts):
                    raise LexError(f'{key}: write! with a format this tool does not expand')
                dest = src.txt(*args[0])
                vals = [src.txt(*x) for x in args[2:]]
                calls, text = [], ''
                shower, star = ('fmt_any', '*') if key.startswith('error |') else ('fmt_display', '')
                for p in parts + ['{}']:
                    if not re.fullmatch(r'\{\w*\}', p):
                        text += {'{{': '{', '}}': '}'}.get(p, p)
                        continue
                    if text:
                        lit = text.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
                        calls.append(f'{dest}.write_str("{lit}")')
                        text = ''
                    if p != '{}':
                        calls.append(f'crate::trusted::{shower}(&mut {star}{dest}, &({p[1:-1]}))')
                    elif vals:
                        calls.append(f'crate::trusted::{shower}(&mut {star}{dest}, &({vals.pop(0)}))')
                code = '?; '.join(calls)
                skip[t.s] = (T[e].e, '{ ' + code + ' }')
                self.note('R-WRITE')
                i = e + 1
                continue
            i += 1


HEADER = '''// generated from /repo/src by tools/splice.py: do not edit
#![allow(unused, unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, clippy::all)]
#![feature(sized_hierarchy, allocator_api)]
#![allow(unsafe_code)]
extern crate alloc;
use vstd::prelude::*;
verus! { global size_of usize == 8; }
'''

MODS = ['anystr', 'error', 'number', 'string', 'parser', 'value', 'doc']

PRELUDE = '''#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::trusted::*;
#[allow(unused_imports)] use crate::lemmas::*;
#[allow(unused_imports)] use crate::views::*;
#[allow(unused_imports)] use crate::run::*;
#[allow(unused_imports)] use crate::strings::*;
#[allow(unused_imports)] use crate::stdlib::Ascii;
#[allow(unused_imports)] use vstd::utf8::*;
'''


def splicer(repo, specdir, mods, force_external):
    """the splicer with the contracts under /repo's current names"""
    try:
        base = json.load(open(os.path.join(specdir, 'baseline.json')))
    except (OSError, ValueError):
        base = {}
    if not base.get('ids'):
        return Splicer(repo, load_specs(specdir), force_external)
    texts = [open(os.path.join(repo, 'src', f)).read() for f in sorted(os.listdir(os.path.join(repo, 'src')))
             if f.endswith('.rs')]
    ids = rename.repo_ids(texts)
    gmap = {}
    if set(base['ids']) - set(ids) and set(ids) - set(base['ids']):
        dry = Splicer(repo, load_specs(specdir), ())
        for m in mods:
            dry.file(m)
        notes = set()
        for f in os.listdir(specdir):
            if f.endswith(('.rs', '.vs')):
                notes |= rename.words(open(os.path.join(specdir, f)).read())
        gmap = rename.global_map(base['fns'], base['ids'], {f['key']: f for f in dry.fnmap}, ids, notes)
    s = Splicer(repo, load_specs(specdir, gmap), force_external)
    s.base = base['fns']
    return s


def run(repo, specdir, outdir, mods=MODS, force_external=(), probe=None):
    s = splicer(repo, specdir, mods, force_external)
    sp = s.sp
    s.probe = probe         # 'head' or 'exit': a false assertion in every body, which the verifier must refuse (tools/vacuity.py)
    os.makedirs(outdir, exist_ok=True)
    main = HEADER
    lib = Source(open(os.path.join(repo, 'src', 'lib.rs')).read())
    uses = [lib.txt(it.kw_i, it.b) for it in lib.items(0, len(lib.toks)) if it.kind == 'use']
    for u in uses:
        if any('crate::' + m + '::' in u for m in mods):
            main += 'pub ' + u + '\n'
    linefix = 0
    for name, text in sp.newmods.items():
        main += f'mod {name};\n'
        pre = '#[allow(unused_imports)] use vstd::prelude::*;\n'
        open(os.path.join(outdir, name + '.rs'), 'w').write(text)
    files = {}
    for m in mods:
        main += f'mod {m};\n'
        body = s.file(m)
        text = PRELUDE + 'verus! {\n' + body + '\n} // verus!\n'
        off = (PRELUDE + 'verus! {\n').count('\n')
        for f in s.fnmap:
            if f['mod'] == m:
                f['gen_start'] += off
                f['gen_end'] += off
        open(os.path.join(outdir, m + '.rs'), 'w').write(text)
    main += 'fn main() {}\n'
    open(os.path.join(outdir, 'lib.rs'), 'w').write(main)
    for key in sp.fns:
        if ('fn', key) not in s.used and key.split(' | ')[0] in mods and not sp.fns[key].optional:
            s.lost.append((key, 'function'))
    for key in sp.impls:
        if ('impl', key) not in s.used and key.split(' | ')[0] in mods:
            s.lost.append((key, 'impl'))
    info = dict(fns=s.fnmap, lost=s.lost, new=s.new_fns, rewrites=s.rewrites,
                renamed=dict(everywhere=sp.gmap, **s.renamed))
    json.dump(info, open(os.path.join(outdir, 'map.json'), 'w'), indent=1)
    return info


if __name__ == '__main__':
    mods = sys.argv[4].split(',') if len(sys.argv) > 4 else MODS
    info = run(sys.argv[1], sys.argv[2], sys.argv[3], mods)
    print(len(info['fns']), 'functions;', len(info['lost']), 'lost anchors;', len(info['new']), 'without spec', info['rewrites'])
    for l in info['lost']:
        print('LOST', l)

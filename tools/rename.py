"""Follow consistent renamings of /repo's identifiers into the contracts.

The contracts name parameters, local variables, fields, types and functions of the source they were written against
(specs/baseline.json keeps the tokens of every function). Where the current source has renamed some of them, the same
renaming is applied to the text of the *contracts* — never to the code: what Verus sees is the current code. A renaming is
applied only if it is injective on that text (the new name does not occur there), so a contract keeps its meaning; a wrong
guess makes the annotated source fail to compile or to verify, which check.py treats as a function out of reach.
"""
import collections, copy, difflib, re
import rustlex

IDENT = re.compile(r'[A-Za-z_]\w*$')
KEYWORDS = set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref '
               'return self Self static struct super trait true type unsafe use where while dyn async await'.split())


def is_id(t):
    return bool(IDENT.match(t)) and t not in KEYWORDS


def subst(text, mapping, fields=True):
    """rename whole identifiers of a contract's text; fields=False leaves `.name` and paths alone"""
    if not mapping:
        return text
    pre, post = (r"(?<![\w'])", r'(?!\w)') if fields else (r"(?<![\w'])(?<!::)(?:(?<!\.)|(?<=\.\.))", r'(?!\w)(?!::)')
    def one(m):
        if not fields and text[:m.start()].rstrip()[-1:] in ('{', ',') and in_literal(text, m.start()):
            after = text[m.end():].lstrip()[:1]
            if after == ':':
                return m.group(1)                                   # Type { name: .. }
            if after in (',', '}'):
                return m.group(1) + ': ' + mapping[m.group(1)]      # Type { name }
        return mapping[m.group(1)]
    return re.sub(pre + '(' + '|'.join(map(re.escape, mapping)) + ')' + post, one, text)


def in_literal(text, i):
    """is position i directly inside the braces of `Type { .. }`?"""
    depth = 0
    for k in range(i - 1, -1, -1):
        if text[k] in ')]}':
            depth += 1
        elif text[k] in '([{':
            if depth == 0:
                return text[k] == '{' and bool(re.search(r'\b[A-Z]\w*\s*$', text[:k]))
            depth -= 1
    return False


def words(text):
    return set(re.findall(r'[A-Za-z_]\w*', text))


def votes(old, new, out):
    """count the identifiers that stand in the same place of two token sequences"""
    if old == new:
        return
    for op, a, b, c, d in difflib.SequenceMatcher(None, old, new, False).get_opcodes():
        if op == 'replace' and b - a == d - c:
            for x, y in zip(old[a:b], new[c:d]):
                if x != y and is_id(x) and is_id(y):
                    out[(x, y)] += 1


def pick(vs, removed, added):
    """the one-to-one part of the votes: {old: new}"""
    m, taken = {}, set()
    for (x, y), _ in sorted(vs.items(), key=lambda kv: (-kv[1], kv[0])):
        if x in removed and y in added and x not in m and y not in taken:
            m[x] = y
            taken.add(y)
    return m


def repo_ids(texts):
    return sorted({t.t for text in texts for t in rustlex.lex(text) if t.k == 'id'})


def global_map(base, base_ids, cur, cur_ids, spec_words):
    """names that are gone from all of /repo/src, and what stands in their place"""
    removed = set(base_ids) - set(cur_ids)
    added = set(cur_ids) - set(base_ids) - spec_words
    if not removed or not added:
        return {}
    vs = collections.Counter()
    gone = [k for k in base if k not in cur]
    fresh = [k for k in cur if k not in base]
    for k in base:
        if k in cur:
            votes(base[k]['text'], cur[k]['text'], vs)
    for k in gone:
        best, score = None, 0.8
        for f in fresh:
            if f.split(' | ')[0] != k.split(' | ')[0]:
                continue
            r = difflib.SequenceMatcher(None, base[k]['text'], cur[f]['text'], False).ratio()
            if r > score:
                best, score = f, r
        if best:
            votes(base[k]['text'], cur[best]['text'], vs)
            kt, ft = rustlex.lex(k), rustlex.lex(best)
            votes([t.t for t in kt], [t.t for t in ft], vs)
    return pick(vs, removed, added)


def bare(toks, body_at):
    """identifiers used as names of variables: not fields, calls' paths or labels of struct literals"""
    out = set()
    for i, t in enumerate(toks):
        if not is_id(t):
            continue
        p, n = toks[i - 1] if i else '', toks[i + 1] if i + 1 < len(toks) else ''
        if p == '.' or n == '::' or i > body_at and n == ':' and p in ('{', ','):
            continue
        out.add(t)
    return out


def local_map(old, new, notes):
    """old -> new for the local variables and parameters of one function; notes: words of its annotations"""
    if old == new:
        return {}
    vs = collections.Counter()
    votes(old, new, vs)
    at = lambda t: t.index('{') if '{' in t else len(t)
    bo, bn = bare(old, at(old)), bare(new, at(new))
    return {x: y for x, y in pick(vs, bo - bn, bn - bo).items() if y not in notes}


def rename_fn(sp, m):
    """the annotations of one function with its local names replaced"""
    s = lambda x: subst(x, m, fields=False) if x else x
    r = copy.copy(sp)
    r.spec, r.ret, r.hoist = s(sp.spec), s(sp.ret), s(sp.hoist)
    r.loops = {k: s(v) for k, v in sp.loops.items()}
    r.inserts = [(w, a if w.endswith('loop') or w.startswith('loop') else s(a), t_) for w, a, t_ in
                 ((w, a, s(t)) for w, a, t in sp.inserts)]
    r.closures = {k: (s(a), s(b)) for k, (a, b) in sp.closures.items()}
    r.attrs = [s(a) for a in sp.attrs]
    return r


def fn_words(sp):
    return words(' '.join([sp.spec, sp.ret or '', sp.hoist or '', *sp.loops.values(), *(a + ' ' + t for _, a, t in sp.inserts),
                           *(a + ' ' + b for a, b in sp.closures.values()), *sp.attrs]))

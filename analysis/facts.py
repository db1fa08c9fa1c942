"""Loading of extracted MIR facts and type-string utilities."""
import json, os, glob, re, functools

class Program:
    def __init__(self, dirs, crates=None):
        self.bodies = {}       # path -> body
        self.crate_of = {}
        self.crates = {}
        self.adts = {}
        self.consts = {}
        self.statics = []
        self.unsafe = []
        self.uimpl = []
        self.closure = {}      # closure type string -> path
        self.impls = {}        # (trait path, method) -> [(impl_self, path)]
        self.all = []
        for d in dirs:
            for f in sorted(glob.glob(os.path.join(d, '*.json'))):
                j = json.load(open(f))
                c = j['crate']
                if crates and c not in crates:
                    continue
                self.crates[c] = j
                for b in j['bodies']:
                    b['crate'] = c
                    self.all.append(b)
                    if b['path'] in self.bodies:
                        # several impls print the same path (e.g. two anonymous consts); keep the first, remember both
                        self.bodies.setdefault('#dup:' + b['path'], b)
                    else:
                        self.bodies[b['path']] = b
                    self.crate_of[b['path']] = c
                    if b.get('clty'):
                        self.closure[b['clty']] = b['path']
                    if b.get('impl_trait') and b['kind'] == 'assocfn':
                        self.impls.setdefault((strip_gen(b['impl_trait']), b['name']), []).append((b['impl_self'], b['path'], b))
                for p, a in j['adts'].items():
                    self.adts.setdefault(p, a)
                    if a.get('local'):
                        self.adts[p] = a
                self.consts.update(j.get('consts') or {})
                for s in j.get('statics') or []:
                    self.statics.append((c, s))
                for u in j.get('unsafe_blocks') or []:
                    self.unsafe.append((c, u))

_cache = {}
def strip_gen(s):
    """Remove ::<...> and <...> generic argument lists from a path string."""
    if s is None: return None
    r = _cache.get(s)
    if r is not None: return r
    out = []; depth = 0; i = 0
    if s.startswith('<'):
        # <T as Trait>::m : keep verbatim but strip inner generics
        _cache[s] = s
        return s
    while i < len(s):
        c = s[i]
        if s.startswith('::<', i) and not s.startswith('::<impl ', i):
            depth += 1; i += 3; continue
        if c == '<' and (depth or not s.startswith('<impl ', i)):
            depth += 1; i += 1; continue
        if c == '<' and s.startswith('<impl ', i):
            # keep the impl segment verbatim
            d = 0; j = i
            while j < len(s):
                if s[j] == '<': d += 1
                elif s[j] == '>' and s[j-1] != '-':
                    d -= 1
                    if d == 0: break
                j += 1
            if not depth: out.append(s[i:j+1])
            i = j + 1; continue
        if c == '>' and s[i-1] != '-' and depth:
            depth -= 1; i += 1; continue
        if not depth: out.append(c)
        i += 1
    r = ''.join(out)
    _cache[s] = r
    return r

# ---------------------------------------------------------------- types
@functools.lru_cache(maxsize=None)
def parse_ty(s):
    """type string -> tree: (head, args...) ; refs are ('&', t), tuples ('()', ...), slices ('[]', t), arrays ('[;]', t, n)"""
    s = s.strip()
    t, rest = _pt(s)
    return t

def _skip(s): return s.lstrip()

def _pt(s):
    s = s.lstrip()
    if s.startswith('&'):
        s = s[1:].lstrip()
        m = re.match(r"'[A-Za-z_0-9]+\s*", s)
        if m: s = s[m.end():]
        if s.startswith('mut '):
            s = s[4:]
            t, r = _pt(s); return ('&mut', t), r
        t, r = _pt(s); return ('&', t), r
    if s.startswith('*const ') or s.startswith('*mut '):
        t, r = _pt(s[s.index(' ')+1:]); return ('*', t), r
    if s.startswith('('):
        args = []; s = s[1:]
        while True:
            s = s.lstrip()
            if s.startswith(')'): return ('()',) + tuple(args), s[1:]
            t, s = _pt(s); args.append(t); s = s.lstrip()
            if s.startswith(','): s = s[1:]
            elif not s.startswith(')'): return ('?',), ''
    if s.startswith('['):
        t, s = _pt(s[1:]); s = s.lstrip()
        if s.startswith(';'):
            j = _match(s, 0, '[', ']', start_depth=1)
            return ('[;]', t, (s[1:j].strip(),)), s[j+1:]
        return ('[]', t), s[1:]
    if s.startswith('{'):
        j = _match(s, 0, '{', '}')
        return (s[:j+1],), s[j+1:]
    if s.startswith('<'):
        # projection
        j = _match(s, 0, '<', '>')
        inner = s[1:j]; rest = s[j+1:]
        m = re.match(r'(::[A-Za-z_0-9]+)+', rest)
        name = m.group(0) if m else ''
        rest = rest[len(name):]
        k = _find_as(inner)
        if k < 0: return (s[:j+1] + name,), rest
        t, _ = _pt(inner[:k])
        return ('proj', t, (inner[k+4:],), (name.lstrip(':'),)), rest
    m = re.match(r'(for<[^>]*>\s*)?(unsafe )?(extern "[^"]*" )?fn\(', s)
    if m:
        j = _match(s, m.end()-1, '(', ')')
        rest = s[j+1:]
        if rest.startswith(' -> '):
            _, rest = _pt(rest[4:])
        rest2 = rest.lstrip()
        if rest2.startswith('{'):
            k = _match(rest2, 0, '{', '}')
            return ('fnitem', (rest2[1:k],)), rest2[k+1:]
        return ('fnptr',), rest
    if s.startswith('dyn ') or s.startswith('impl '):
        # up to , > ) at depth 0
        d = 0
        for i, c in enumerate(s):
            if c in '<([{': d += 1
            elif c in '>)]}' and not (c == '>' and s[i-1] == '-'):
                if d == 0: return (s[:i].strip(),), s[i:]
                d -= 1
            elif c == ',' and d == 0: return (s[:i].strip(),), s[i:]
        return (s.strip(),), ''
    m = re.match(r"[A-Za-z_0-9:'!#\$\?@\-\.]+", s)
    if not m: return ('?',), ''
    head = m.group(0); rest = s[m.end():]
    if head.endswith('::') and rest.startswith('<'): head = head[:-2]
    args = []
    if rest.startswith('<') and not rest.startswith('<impl '):
        rest = rest[1:]
        while True:
            rest = rest.lstrip()
            if rest.startswith('>'): rest = rest[1:]; break
            if rest.startswith("'"):
                m = re.match(r"'[A-Za-z_0-9]*", rest); rest = rest[m.end():].lstrip()
                if rest.startswith(','): rest = rest[1:]
                continue
            m = re.match(r'[A-Za-z_0-9]+\s*=\s*', rest)
            if m: rest = rest[m.end():]
            if rest.startswith('{'):
                pass
            if not rest: break
            t, rest2 = _pt(rest)
            if rest2 == rest: break
            rest = rest2
            args.append(t); rest = rest.lstrip()
            if rest.startswith(','): rest = rest[1:]
            elif not rest.startswith('>'): break
        # trailing path (e.g. Foo<T>::Bar)
        m = re.match(r'(::[A-Za-z_0-9]+)+', rest)
        if m:
            head += m.group(0); rest = rest[m.end():]
    elif rest.startswith('<impl '):
        j = _match(rest, 0, '<', '>'); head += rest[:j+1]; rest = rest[j+1:]
        m = re.match(r'(::[A-Za-z_0-9]+)+', rest)
        if m: head += m.group(0); rest = rest[m.end():]
    return (head,) + tuple(args), rest

def _match(s, i, o, c, start_depth=0):
    d = start_depth
    while i < len(s):
        if s[i] == o: d += 1
        elif s[i] == c and not (c == '>' and i and s[i-1] in '-='):
            d -= 1
            if d == 0: return i
        i += 1
    return len(s) - 1

def _find_as(s):
    d = 0
    for i, c in enumerate(s):
        if c in '<([{': d += 1
        elif c in '>)]}' and not (c == '>' and i and s[i-1] in '-='): d -= 1
        elif d == 0 and s.startswith(' as ', i): return i
    return -1

def show_ty(t):
    h = t[0]
    if h == '&': return '&' + show_ty(t[1])
    if h == '&mut': return '&mut ' + show_ty(t[1])
    if h == '*': return '*const ' + show_ty(t[1])
    if h == '()': return '(' + ', '.join(show_ty(x) for x in t[1:]) + (',' if len(t) == 2 else '') + ')'
    if h == '[]': return '[' + show_ty(t[1]) + ']'
    if h == '[;]': return '[' + show_ty(t[1]) + '; ' + t[2][0] + ']'
    if h == 'fnitem': return 'fn() {' + t[1][0] + '}'
    if h == 'proj': return '<' + show_ty(t[1]) + ' as ' + t[2][0] + '>::' + t[3][0]
    if len(t) > 1: return h + '<' + ', '.join(show_ty(x) for x in t[1:]) + '>'
    return h

PRIMS = {'u8','u16','u32','u64','u128','usize','i8','i16','i32','i64','i128','isize','f32','f64','bool','char'}

SLICE_ITER = 'core::slice::iter::Iter'
def into_iter_ty(t):
    h = t[0]
    if h in ('&', '&mut') and t[1][0] in ('alloc::vec::Vec', '[]', '[;]'):
        return (SLICE_ITER if h == '&' else 'core::slice::iter::IterMut', t[1][1])
    if h == 'alloc::vec::Vec': return ('alloc::vec::into_iter::IntoIter', t[1])
    if h == '[;]': return ('core::array::iter::IntoIter', t[1])
    if h == 'core::option::Option': return ('core::option::IntoIter', t[1])
    if h == 'core::result::Result': return ('core::result::IntoIter', t[1])
    return t

@functools.lru_cache(maxsize=None)
def norm_ty(t):
    """normalise IntoIter projections"""
    if not isinstance(t, tuple): return t
    if t[0] == 'proj':
        inner = norm_ty(t[1])
        if t[3][0] == 'IntoIter': return into_iter_ty(inner)
        return ('proj', inner, t[2], t[3])
    return (t[0],) + tuple(norm_ty(x) if isinstance(x, tuple) else x for x in t[1:])

@functools.lru_cache(maxsize=None)
def subst_ty_tree(t, sub):
    if not isinstance(t, tuple): return t
    if len(t) == 1:
        for k, v in sub:
            if t[0] == k: return v
        return t
    return norm_ty((t[0],) + tuple(subst_ty_tree(x, sub) if isinstance(x, tuple) else x for x in t[1:]))

def subst_ty(s, sub):
    t = parse_ty(s)
    return subst_ty_tree(t, sub)

def unify(pat, act, params, out):
    """bind type parameter names in pat to trees of act; heads may differ (model types mirror std types)"""
    if len(pat) == 1 and pat[0] in params:
        out.setdefault(pat[0], act); return
    if pat[0] in ('&', '&mut') and act[0] in ('&', '&mut'):
        unify(pat[1], act[1], params, out); return
    if pat[0] in ('&', '&mut') and act[0] not in ('&', '&mut'):
        return
    for a, b in zip(pat[1:], act[1:]):
        if isinstance(a, tuple) and isinstance(b, tuple): unify(a, b, params, out)

def deref_ty(t):
    while t and t[0] in ('&', '&mut'): t = t[1]
    return t

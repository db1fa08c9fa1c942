"""Inlining, std-model substitution and CFG normalisation (jump threading).

flatten(path) returns a Flat: one CFG with every workspace-local callee, closure, promoted constant and modelled std
combinator inlined. Helper extraction, iterator adapters vs. index loops, `?` vs. match etc. all end in the same shape."""
import re
from facts import *

class Blk:
    __slots__ = ('stmts', 'term', 'org')
    def __init__(self, stmts, term, org=None):
        self.stmts = stmts; self.term = term; self.org = org

class Flat:
    __slots__ = ('locals', 'blocks', 'entry', 'argc', 'path', 'params')
    # locals: [(tytree, name, fnpath)]

M = 'models::'
IT = 'core::iter::traits::iterator::Iterator::'
DE = 'core::iter::traits::double_ended::DoubleEndedIterator::'
EX = 'core::iter::traits::exact_size::ExactSizeIterator::'
OPT = 'core::option::Option::'
RES = 'core::result::Result::'
VEC = 'alloc::vec::Vec::'
SL = 'core::slice::<impl [T]>::'

SI = ['core::slice::iter::Iter', 'core::slice::iter::IterMut', 'models::SIter']
VI = ['alloc::vec::into_iter::IntoIter', 'core::array::iter::IntoIter', 'models::VIter', 'alloc::vec::drain::Drain']
RG = ['core::ops::range::Range', 'models::Range']
def H(**kw): return kw
HEADS = {
    'range': RG, 'rangeincl': ['core::ops::range::RangeInclusive', 'models::RangeInclusive'],
    'rangefrom': ['core::ops::range::RangeFrom', 'models::RangeFrom'],
    'siter': SI, 'viter': VI,
    'chunks_exact': ['core::slice::iter::ChunksExact'], 'windows': ['core::slice::iter::Windows'], 'chunks': ['core::slice::iter::Chunks'],
    'enumerate': ['core::iter::adapters::enumerate::Enumerate', 'models::Enumerate'],
    'rev': ['core::iter::adapters::rev::Rev', 'models::Rev'],
    'map': ['core::iter::adapters::map::Map', 'models::Map'],
    'filter': ['core::iter::adapters::filter::Filter', 'models::Filter'],
    'filter_map': ['core::iter::adapters::filter_map::FilterMap', 'models::FilterMap'],
    'zip': ['core::iter::adapters::zip::Zip', 'models::Zip'],
    'chain': ['core::iter::adapters::chain::Chain', 'models::Chain'],
    'skip': ['core::iter::adapters::skip::Skip', 'models::Skip'],
    'take': ['core::iter::adapters::take::Take', 'models::Take'],
    'take_while': ['core::iter::adapters::take_while::TakeWhile', 'models::TakeWhile'],
    'skip_while': ['core::iter::adapters::skip_while::SkipWhile', 'models::SkipWhile'],
    'copied': ['core::iter::adapters::copied::Copied', 'core::iter::adapters::cloned::Cloned', 'models::Copied'],
    'flat_map': ['core::iter::adapters::flatten::FlatMap', 'models::FlatMap'],
    'once': ['core::iter::sources::once::Once', 'core::option::IntoIter', 'core::result::IntoIter', 'models::Once'],
    'successors': ['core::iter::sources::successors::Successors', 'models::Successors'],
    'from_fn': ['core::iter::sources::from_fn::FromFn', 'models::FromFn'],
    'steprange': ['models::StepRange'],
    'repeat': ['core::iter::sources::repeat::Repeat', 'models::Repeat'], 'repeatn': ['core::iter::sources::repeat_n::RepeatN', 'models::RepeatN'],
}
KIND = {h: k for k, hs in HEADS.items() for h in hs}
def iter_kind(t):
    """which model's values stand for iterators of this type"""
    while t[0] in ('&', '&mut') and len(t) > 1: t = t[1]
    k = KIND.get(t[0])
    if k in ('take', 'skip') and len(t) > 1 and t[0].startswith('core::'):
        i = iter_kind(t[1])
        if i == 'siter' or (k == 'skip' and i == 'range'): return i
    return k
FOREIGN = {'bevy_ecs::query::iter::QueryIter'}     # iterators without a model whose items are taken one by one with an opaque next()
SLICES = {'[]', '[;]', 'alloc::vec::Vec', 'alloc::boxed::Box'}

def mk_dispatch():
    d = {}
    for k in HEADS:
        d[(IT + 'next', k)] = k + '_next'
    for k in ('range', 'rangeincl', 'siter', 'viter', 'enumerate', 'rev', 'map', 'filter', 'copied'):
        d[(DE + 'next_back', k)] = k + '_next_back'
    for k in ('range', 'siter', 'viter', 'enumerate', 'rev', 'map', 'copied'):
        d[(EX + 'len', k)] = k + '_len'
        d[(IT + 'len', k)] = k + '_len'
    for m in 'enumerate rev map filter filter_map zip chain skip take take_while skip_while flat_map for_each fold any all find find_map position count last nth sum max min max_by_key min_by_key try_for_each try_fold'.split():
        d[(IT + m, '*')] = m
    for m in ('copied', 'cloned'): d[(IT + m, '*')] = 'copied'
    d[(IT + 'by_ref', '*')] = 'identity'
    d[(IT + 'skip', 'siter')] = 'siter_skip'
    d[(IT + 'skip', 'range')] = 'range_skip'
    d[(IT + 'take', 'siter')] = 'siter_take'
    d[('core::iter::sources::repeat::repeat', '*')] = 'repeat'
    d[('core::iter::sources::repeat_n::repeat_n', '*')] = 'repeat_n'
    d[(IT + 'nth', 'siter')] = 'siter_nth'
    d[(IT + 'step_by', 'range')] = 'range_step_by'
    d[(DE + 'rev', '*')] = 'rev'
    d[('core::iter::sources::successors::successors', '*')] = 'successors'
    d[('core::iter::sources::from_fn::from_fn', '*')] = 'from_fn'
    d[('core::iter::sources::once::once', '*')] = 'once'
    for m in 'map and_then unwrap_or unwrap_or_else unwrap_or_default map_or map_or_else ok_or ok_or_else is_some is_none is_some_and is_none_or unwrap expect as_ref as_mut copied take replace filter or or_else and zip inspect flatten'.split():
        d[(OPT + m, '*')] = 'opt_' + m
    d[(OPT + 'cloned', '*')] = 'opt_copied'
    d[(OPT + 'transpose', '*')] = 'res_transpose'
    d[(OPT + 'insert', '*')] = None
    for m in 'map map_err and_then or_else unwrap expect unwrap_or unwrap_or_else unwrap_or_default map_or map_or_else ok err is_ok is_err is_ok_and as_ref as_mut inspect_err'.split():
        d[(RES + m, '*')] = 'res_' + m
    d[('core::ops::try_trait::Try::branch', 'core::option::Option')] = 'opt_branch'
    d[('core::ops::try_trait::Try::branch', 'core::result::Result')] = 'res_branch'
    d[('core::ops::try_trait::Try::from_output', 'core::option::Option')] = 'opt_from_output'
    d[('core::ops::try_trait::Try::from_output', 'core::result::Result')] = 'res_from_output'
    d[('core::ops::try_trait::FromResidual::from_residual', 'core::option::Option')] = 'opt_from_residual'
    d[('core::ops::try_trait::FromResidual::from_residual', 'core::result::Result')] = 'res_from_residual'
    d[('core::bool::<impl bool>::then', '*')] = 'bool_then'
    d[('core::bool::<impl bool>::then_some', '*')] = 'bool_then_some'
    d[('core::mem::replace', '*')] = 'mem_replace'
    d[('core::mem::take', '*')] = 'mem_take'
    d[('core::mem::swap', '*')] = 'mem_swap'
    d[('core::mem::drop', '*')] = 'ignore'
    d[('core::convert::identity', '*')] = 'identity'
    d[('core::cmp::Ord::clamp', '*')] = 'clamp'
    for t in ('f32', 'f64'):
        for pre in ('core', 'std'):
            d[('%s::%s::<impl %s>::clamp' % (pre, t, t), '*')] = 'clamp'
    for m in ('push', 'pop', 'truncate', 'clear', 'extend_from_slice', 'swap_remove', 'resize', 'remove', 'insert'):
        d[(VEC + m, '*')] = 'vec_' + m
    d[(VEC + 'is_empty', '*')] = 'slice_is_empty'
    d[('core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec')] = 'vec_extend'
    for m, n in {'iter': 'slice_iter', 'iter_mut': 'slice_iter', 'first': 'slice_first', 'first_mut': 'slice_first', 'last': 'slice_last',
                 'last_mut': 'slice_last', 'is_empty': 'slice_is_empty', 'swap': 'slice_swap', 'contains': 'slice_contains',
                 'split_at': 'slice_split_at', 'split_at_mut': 'slice_split_at', 'chunks_exact': 'chunks_exact', 'windows': 'chunks_exact',
                 'chunks': 'chunks_exact'}.items():
        d[(SL + m, '*')] = n
    d[('core::slice::iter::ChunksExact::remainder', '*')] = 'chunks_exact_remainder'
    d[('core::slice::iter::Iter::as_slice', '*')] = 'siter_as_slice'
    d[('core::ops::range::Range::contains', '*')] = 'range_contains'
    d[('core::ops::range::Range::is_empty', '*')] = 'range_is_empty'
    d[('core::ops::range::RangeInclusive::contains', '*')] = 'rangeincl_contains'
    d[('core::ops::range::RangeInclusive::new', '*')] = 'rangeincl_new'
    return d
DISPATCH = mk_dispatch()

VECS = {}
for a in ('glam::f32::sse2::vec3a::Vec3A', 'glam::f32::vec3::Vec3', 'glam::u16::u16vec3::U16Vec3', 'glam::u32::uvec3::UVec3',
          'glam::i32::ivec3::IVec3', 'glam::i16::i16vec3::I16Vec3', 'glam::usize::usizevec3::USizeVec3', 'models::V3', 'glam::bool::bvec3::BVec3',
          'glam::bool::bvec3a::BVec3A', 'glam::bool::sse2::bvec3a::BVec3A', 'glam::u8::u8vec3::U8Vec3', 'glam::i64::i64vec3::I64Vec3',
          'glam::f64::dvec3::DVec3', 'glam::u64::u64vec3::U64Vec3'):
    VECS[a] = 3
for a in ('glam::f32::vec2::Vec2', 'glam::u16::u16vec2::U16Vec2', 'glam::u32::uvec2::UVec2', 'glam::i32::ivec2::IVec2', 'models::V2',
          'glam::i16::i16vec2::I16Vec2', 'glam::usize::usizevec2::USizeVec2', 'glam::u8::u8vec2::U8Vec2', 'glam::i64::i64vec2::I64Vec2',
          'glam::f64::dvec2::DVec2'):
    VECS[a] = 2
VECELT = {}
for a in VECS:
    n = a.split('::')[-1].lower()
    e = 'f32'
    for pre, t in (('u16vec', 'u16'), ('u8vec', 'u8'), ('uvec', 'u32'), ('ivec', 'i32'), ('i16vec', 'i16'), ('usizevec', 'usize'), ('bvec', 'bool'), ('i64vec', 'i64'), ('u64vec', 'u64'), ('dvec', 'f64')):
        if n.startswith(pre): e = t
    VECELT[a] = e

ARITH = {'core::ops::arith::Add::add': 'add', 'core::ops::arith::Sub::sub': 'sub', 'core::ops::arith::Mul::mul': 'mul',
         'core::ops::arith::Div::div': 'div', 'core::ops::arith::Neg::neg': 'neg',
         'core::ops::arith::AddAssign::add_assign': 'add_assign', 'core::ops::arith::SubAssign::sub_assign': 'sub_assign',
         'core::ops::arith::MulAssign::mul_assign': 'mul_assign', 'core::ops::arith::DivAssign::div_assign': 'div_assign'}
GLAM_INH = {'new': 'v%d', 'splat': 'v%d_splat', 'min': 'v%d_min', 'max': 'v%d_max', 'dot': 'v%d_dot', 'cross': 'v%d_cross',
            'length_squared': 'v%d_length_squared', 'length': 'v%d_length', 'distance': 'v%d_distance', 'distance_squared': 'v%d_distance_squared',
            'xz': 'v%d_xz', 'xy': 'v%d_xy', 'cmple': 'v%d_le', 'cmpge': 'v%d_ge', 'all': 'v%d_all'}
GLAM_FN = {'glam::u16::u16vec3::u16vec3': 'v3', 'glam::u32::uvec3::uvec3': 'v3', 'glam::i32::ivec3::ivec3': 'v3', 'glam::f32::vec3::vec3': 'v3',
           'glam::f32::sse2::vec3a::vec3a': 'v3', 'glam::u16::u16vec2::u16vec2': 'v2', 'glam::f32::vec2::vec2': 'v2', 'glam::u32::uvec2::uvec2': 'v2',
           'glam::i32::ivec2::ivec2': 'v2'}

def last_seg(p):
    p = strip_gen(p)
    return p.rsplit('::', 1)[-1]

class Flattener:
    def __init__(self, prog, opaque=(), max_depth=40, stop=None, threads=True, foreign=False):
        self.foreign = foreign
        self.p = prog
        self.opaque = set(opaque)
        self.stop = stop          # predicate(path)->bool : keep the call opaque
        self.memo = {}
        self.stack = []
        self.max_depth = max_depth
        self.inlined = set()
        self.threads = threads

    # ---- conversion of one body
    def conv_place(self, b, p, base):
        out = [p[0] + base]
        var = None
        for e in p[1:]:
            if e == '*': out.append('*')
            elif isinstance(e, str): continue
            elif e[0] == 'f':
                nm, _, ow = e[2].partition('@')
                if ow == 'closure' or ow == 'tuple' or not nm: nm = str(e[1])
                if ow == 'alloc::boxed::Box' or ow.startswith('core::ptr::'): nm = '#' + nm
                if var is not None: nm = var + '.' + nm; var = None
                out.append(('f', nm))
            elif e[0] == 'd': var = e[2] if e[2] is not None else '#%s' % e[1]
            elif e[0] == 'i': out.append(('i', e[1] + base))
            elif e[0] == 'ci': out.append(('ci', e[1], bool(e[2])))
            elif e[0] == 'ss': out.append(('ss', e[1], e[2], bool(e[3])))
            else: continue
        return tuple(out)

    def conv_op(self, b, o, base):
        if 'c' in o: return ('p', self.conv_place(b, o['c'], base))
        if 'm' in o: return ('p', self.conv_place(b, o['m'], base))
        return ('k', o['k'])

    def conv_rv(self, b, r, base, sub):
        t = r[0]
        c = lambda o: self.conv_op(b, o, base)
        if t == 'use': return ('use', c(r[1]))
        if t == 'repeat': return ('repeat', c(r[1]), r[2])
        if t == 'ref': return ('ref', r[1] == 'mut', self.conv_place(b, r[2], base))
        if t == 'raw': return ('ref', 'ut' in str(r[1]), self.conv_place(b, r[2], base))
        if t == 'cast':
            return ('cast', r[1], c(r[2]), show_ty(subst_ty(r[3], sub)) if sub else r[3], show_ty(subst_ty(r[4], sub)) if sub and r[4] else r[4])
        if t == 'bin': return ('bin', r[1], c(r[2]), c(r[3]), r[4])
        if t == 'un': return ('un', r[1], c(r[2]))
        if t == 'discr': return ('discr', self.conv_place(b, r[1], base), strip_gen(r[2]) if r[2] else None)
        if t == 'agg':
            names = tuple(r[4]) if r[4] else tuple(str(i) for i in range(len(r[5])))
            path = strip_gen(r[2]) if r[1] != 'closure' and r[2] else r[2]
            var = r[3]
            if r[1] != 'adt': var = None; names = tuple(str(i) for i in range(len(r[5])))
            elif var is not None and path in self.p.adts and self.p.adts[path]['kind'] in ('struct', 'Struct'): var = None
            elif var is not None and path and path.split('::')[-1] == var and not (path in self.p.adts and self.p.adts[path]['kind'].lower() == 'enum'): var = None
            return ('agg', r[1], path, var, names, tuple(c(x) for x in r[5]))
        if t == 'tls': return ('use', ('k', {'static': r[1], 'ty': '?'}))
        return ('other', str(r))

    # ---- main
    def flatten(self, path, args_sub=()):
        f = self._flat(path, tuple(sorted(args_sub)))
        return f

    def body(self, path):
        return self.p.bodies.get(path)

    def _flat(self, path, sub):
        key = (path, sub)
        if key in self.memo: return self.memo[key]
        if path in self.stack or len(self.stack) > self.max_depth: return None
        b = self.body(path)
        if b is None: return None
        self.stack.append(path)
        try:
            f = self._build(b, sub)
        finally:
            self.stack.pop()
        self.memo[key] = f
        self.inlined.add(path)
        return f

    def _build(self, b, sub):
        f = Flat()
        f.path = b['path']; f.argc = b['argc']; f.params = sub
        fn = b['path']
        f.locals = []
        for l in b['locals']:
            try: t = subst_ty(l[0], sub)
            except Exception: t = ('?',)
            f.locals.append((t, l[1] if len(l) > 1 else None, fn))
        f.blocks = []
        file = b['file']
        for i, bl in enumerate(b['blocks']):
            if bl is None:
                f.blocks.append(Blk([], ('unreach', 'cleanup'))); continue
            st = []
            for s in bl['s']:
                if s[0] == '=':
                    st.append(('=', self.conv_place(b, s[1], 0), self.conv_rv(b, s[2], 0, sub), (fn, s[3])))
                elif s[0] == 'sd':
                    st.append(('sd', self.conv_place(b, s[1], 0), s[2], (fn, s[3] if len(s) > 3 else 0)))
            t = bl['t']; k = t[0]
            if k == 'goto': nt = ('goto', t[1])
            elif k == 'switch': nt = ('switch', self.conv_op(b, t[1], 0), tuple((v, x) for v, x in t[2]), t[3], (fn, t[5] if len(t) > 5 else 0))
            elif k == 'return': nt = ('ret',)
            elif k == 'unreachable': nt = ('unreach', 'unreachable')
            elif k == 'drop': nt = ('goto', t[2])
            elif k == 'assert':
                st.append(('assert', self.conv_op(b, t[1], 0), t[2], t[3], (fn, t[5] if len(t) > 5 else 0)))
                nt = ('goto', t[4])
            elif k == 'call':
                ci = t[1]
                nt = ('call', ci, tuple(self.conv_op(b, x, 0) for x in t[2]), self.conv_place(b, t[3], 0), t[4], (fn, t[5]),
                      tuple(t[6]), t[7])
            else: nt = ('unreach', 'other:' + str(k))
            f.blocks.append(Blk(st, nt, (fn, i)))
        f.entry = 0
        self._inline(f, b, sub)
        for x in f.blocks:
            if x.term[0] == 'call':
                t = x.term
                x.stmts = x.stmts + [('call',) + t[1:4] + (t[5],)]
                x.term = ('goto', t[4]) if t[4] is not None else ('unreach', 'diverges')
        simplify(f, self.threads, self.foreign)
        return f

    def _inline(self, f, b, sub):
        work = list(range(len(f.blocks)))
        for bi in work:
            blk = f.blocks[bi]
            # promoted operands -> inline as value reads
            blk.stmts = self._promote(f, b, blk.stmts)
            t = blk.term
            if t[0] != 'call': continue
            if any(a[0] == 'k' and 'promoted' in a[1] for a in t[2]):
                nargs = []
                for a in t[2]:
                    if a[0] == 'k' and 'promoted' in a[1]:
                        a = self._promo_op(f, b, a, blk.stmts)
                    nargs.append(a)
                t = t[:2] + (tuple(nargs),) + t[3:]
                blk.term = t
            self._inline_call(f, bi, sub)

    def _promo_op(self, f, b, a, stmts):
        pp = '%s::promoted[%d]' % (b['path'], a[1]['promoted'])
        pb = self.body(pp)
        if pb is None: return a
        live = [x for x in pb['blocks'] if x is not None]
        if any(x['t'][0] == 'call' for x in live):
            fl = self._flat(pp, ())
            if fl is None or len(fl.blocks) != 1: return a
        fl = self._flat(pp, ())
        if len(fl.blocks) != 1: return a
        base = len(f.locals)
        f.locals.extend(fl.locals)
        for s in fl.blocks[fl.entry].stmts: stmts.append(shift_stmt(s, base))
        return ('p', (base,))

    def _promote(self, f, b, stmts):
        if not any('promoted' in str(s) for s in stmts): return stmts
        out = []
        for s in stmts:
            if s[0] == '=':
                rv = s[2]
                if rv[0] in ('use', 'cast', 'bin', 'un', 'agg', 'repeat'):
                    def fx(x):
                        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'k' and isinstance(x[1], dict) and 'promoted' in x[1]:
                            return self._promo_op(f, b, x, out)
                        if isinstance(x, tuple): return tuple(fx(y) for y in x)
                        return x
                    rv = tuple(fx(x) for x in rv)
                s = ('=', s[1], rv, s[3])
            out.append(s)
        return out

    def _inline_call(self, f, bi, sub):
        blk = f.blocks[bi]
        _, ci, args, dest, target, org, argtys, destty = blk.term
        if 'ptr' in ci and 'decl' not in ci:
            return
        decl = ci['decl']; fnp = ci.get('fn') or decl
        gargs = [subst_ty(g, sub) for g in ci.get('gargs') or []]
        aty = [subst_ty(a, sub) for a in argtys]
        dty = subst_ty(destty, sub) if destty else ('?',)
        tgt = self.resolve(decl, fnp, gargs, aty, dty, ci, sub)
        # rewrite call info with substituted types for the interpreter
        ci2 = dict(ci); ci2['_gargs'] = gargs; ci2['_aty'] = aty; ci2['_dty'] = dty; ci2['_decl'] = strip_gen(decl)
        blk.term = ('call', ci2, args, dest, target, org)
        if tgt is None: return
        kind = tgt[0]
        if kind == 'name':
            ci2['_name'] = tgt[1]
            return
        if kind == 'prim':
            ci2['_prim'] = tgt[1]; return
        if kind == 'agg':
            _, path, var, names = tgt
            ops = args
            blk.stmts.append(('=', dest, ('agg', 'adt', path, var, names, tuple(ops)), org))
            blk.term = ('goto', target) if target is not None else ('unreach', 'call')
            return
        if kind == 'closure' or kind == 'fnval':
            # args: (f, tuple) ; untuple
            callee, csub, byref = tgt[1], tgt[2], tgt[3]
            fl = self._flat(callee, csub)
            if fl is None:
                ci2['_name'] = callee; return
            tup = args[1]
            tt = aty[1] if len(aty) > 1 else ('()',)
            tmp = len(f.locals); f.locals.append((tt, None, f.path))
            blk.stmts.append(('=', (tmp,), ('use', tup), org))
            n = fl.argc - (1 if kind == 'closure' else 0)
            nargs = []
            if kind == 'closure':
                a0 = args[0]
                if byref > 0:      # body wants a reference, value passed
                    t2 = len(f.locals); f.locals.append((('?',), None, f.path))
                    blk.stmts.append(('=', (t2,), ('use', a0), org))
                    t3 = len(f.locals); f.locals.append((('&mut', ('?',)), None, f.path))
                    blk.stmts.append(('=', (t3,), ('ref', True, (t2,)), org))
                    nargs.append(('p', (t3,)))
                elif byref < 0:    # strip -byref references
                    pl = a0[1] + ('*',) * (-byref)
                    nargs.append(('p', pl))
                else: nargs.append(a0)
            for i in range(n): nargs.append(('p', (tmp, ('f', str(i)))))
            self._splice(f, bi, fl, nargs, dest, target, org)
            return
        if kind == 'fnagg':
            _, path, var, names = tgt
            tmp = len(f.locals); f.locals.append((aty[1], None, f.path))
            blk.stmts.append(('=', (tmp,), ('use', args[1]), org))
            blk.stmts.append(('=', dest, ('agg', 'adt', path, var, names, tuple(('p', (tmp, ('f', str(i)))) for i in range(len(names)))), org))
            blk.term = ('goto', target) if target is not None else ('unreach', 'call')
            return
        if kind == 'fncall':
            # function item passed as value: re-dispatch as a direct call with untupled args
            path, decl2, g2 = tgt[1], tgt[2], tgt[3]
            tt = aty[1] if len(aty) > 1 else ('()',)
            tmp = len(f.locals); f.locals.append((tt, None, f.path))
            blk.stmts.append(('=', (tmp,), ('use', args[1]), org))
            elts = tt[1:] if tt[0] == '()' else ()
            nargs = tuple(('p', (tmp, ('f', str(i)))) for i in range(len(elts)))
            ci3 = {'decl': decl2, 'fn': path, 'gargs': [show_ty(x) for x in g2], 'resolved': True, 'local': path in self.p.bodies}
            blk.term = ('call', ci3, nargs, dest, target, org, tuple(show_ty(x) for x in elts), show_ty(dty))
            self._inline_call(f, bi, ())
            return
        callee, csub = tgt[1], tgt[2]
        fl = self._flat(callee, csub)
        if fl is None:
            ci2['_name'] = callee; return
        if callee.startswith(M) and re.match(r's?v[23](_|$)', callee[len(M):]):     # operators on references act on the values
            mb = self.p.bodies[callee]; nargs = []
            for i, (a, t) in enumerate(zip(args, aty)):
                n = 0
                if parse_ty(mb['locals'][i + 1][0])[0] not in ('&', '&mut'):
                    while t[0] in ('&', '&mut'): t = t[1]; n += 1
                nargs.append(('p', a[1] + ('*',) * n) if n and a[0] == 'p' else a)
            args = nargs
        self._splice(f, bi, fl, args, dest, target, org)

    def _splice(self, f, bi, fl, args, dest, target, org):
        blk = f.blocks[bi]
        base = len(f.locals)
        f.locals.extend(fl.locals)
        nb = len(f.blocks)
        for i, a in enumerate(args):
            if i >= fl.argc: break
            blk.stmts.append(('=', (base + 1 + i,), ('use', a), org))
        blk.term = ('goto', nb + fl.entry)
        # continuation
        cont = nb + len(fl.blocks)
        for b2 in fl.blocks:
            st = [shift_stmt(s, base) for s in b2.stmts]
            t = b2.term
            if t[0] == 'ret':
                t = ('goto', cont)
            else:
                t = shift_term(t, base, nb)
            f.blocks.append(Blk(st, t, b2.org))
        ct = ('goto', target) if target is not None else ('unreach', 'diverged')
        f.blocks.append(Blk([('=', dest, ('use', ('p', (base,))), org), ('kill', base, base + len(fl.locals))], ct, blk.org))

    # ---- callee resolution
    def resolve(self, decl, fnp, gargs, aty, dty, ci, sub):
        d = strip_gen(decl)
        if fnp in self.opaque or d in self.opaque: return ('name', fnp)
        if d.startswith('models::prim::'): return ('prim', d[len('models::prim::'):])
        # closure calls
        if d in ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call'):
            F = gargs[0]
            nref = 0 if d.endswith('call_once') else 1
            t = F
            while t[0] in ('&', '&mut'): t = t[1]; nref += 1
            if t[0].startswith('{closure@'):
                cp = self.p.closure.get(t[0])
                if cp is None: return None
                cb = self.p.bodies[cp]
                want = 1 if cb['locals'][1][0].startswith('&') else 0
                # number of refs given = nref ; wanted = want
                csub = self._closure_sub(cp, sub)
                if nref == want: return ('closure', cp, csub, 0)
                if nref < want: return ('closure', cp, csub, 1)
                return ('closure', cp, csub, -(nref - want))
            if t[0] == 'fnitem':
                p = t[1][0]
                c = self.ctor(p)
                if c: return ('fnagg',) + c
                return self.fnitem(p, aty, dty)
            return None
        if self.stop and self.stop(fnp): return ('name', fnp)
        c = self.ctor(fnp)
        if c and fnp not in self.p.bodies: return ('agg',) + c
        # std models
        m = self.model(d, gargs, aty, dty)
        if m is not None:
            if m == '': return None
            mb = self.p.bodies.get(M + m)
            if mb is None: return None
            params = set(mb['generics'] or ())
            out = {}
            arith = re.match(r's?v[23](_|$)', m)
            for i, a in enumerate(aty):
                if i + 1 <= mb['argc']:
                    pat = parse_ty(mb['locals'][i + 1][0])
                    if arith and pat[0] not in ('&', '&mut'): a = deref_ty(a)
                    if a[0] in VECELT and len(a) == 1: a = (a[0], parse_ty(VECELT[a[0]]))
                    unify(pat, a, params, out)
            unify(parse_ty(mb['locals'][0][0]), dty, params, out)
            return ('fn', M + m, tuple(sorted(out.items())))
        # local functions
        if fnp in self.p.bodies and self.p.bodies[fnp]['kind'] in ('fn', 'assocfn', 'closure'):
            if fnp in self.opaque: return ('name', fnp)
            b = self.p.bodies[fnp]
            if b.get('derived') and b.get('impl_trait') and strip_gen(b['impl_trait']) in ('core::clone::Clone', 'core::cmp::PartialEq'):
                return None
            out = {}
            if b['generics']:
                params = set(b['generics'])
                for i, a in enumerate(aty):
                    if i + 1 <= b['argc']:
                        unify(parse_ty(b['locals'][i + 1][0]), a, params, out)
                unify(parse_ty(b['locals'][0][0]), dty, params, out)
                # explicit generic args of inherent/free fns (when printed in order)
                gg = [g for g in b['generics']]
                rg = [subst_ty(x, sub) for x in ci.get('rargs') or []]
                if len(gg) == len(rg):
                    for n, t in zip(gg, rg): out[n] = t
            return ('fn', fnp, tuple(sorted(out.items())))
        # trait method on a type parameter now known
        if gargs and '::' in d:
            tr, meth = d.rsplit('::', 1)
            cands = self.p.impls.get((tr, meth))
            if cands:
                self_t = gargs[0]
                hits = []
                for (iself, path, b) in cands:
                    it = parse_ty(iself)
                    if it == self_t or (it[0] == self_t[0] and len(it) == len(self_t) and it[0] not in ('&', '&mut')):
                        # trait args
                        ta = [parse_ty(x) for x in (b.get('trait_args') or [])]
                        if ta and len(gargs) > 1 and len(ta) == len(gargs) - 1 and any(x != y for x, y in zip(ta, gargs[1:])): continue
                        if ta and len(ta) == len(gargs) and any(x != y for x, y in zip(ta[1:], gargs[1:])): continue
                        hits.append((path, b))
                if len(hits) == 1:
                    path, b = hits[0]
                    if path in self.opaque: return ('name', path)
                    if b.get('derived') and tr in ('core::clone::Clone', 'core::cmp::PartialEq'): return None
                    out = {}
                    if b['generics']:
                        params = set(b['generics'])
                        for i, a in enumerate(aty):
                            if i + 1 <= b['argc']:
                                unify(parse_ty(b['locals'][i + 1][0]), a, params, out)
                    return ('fn', path, tuple(sorted(out.items())))
            if d == 'core::convert::Into::into' and len(gargs) == 2:
                return self.resolve('core::convert::From::from', 'core::convert::From::from', [gargs[1], gargs[0]], aty, dty, {}, sub)
            if d == 'core::convert::TryInto::try_into' and len(gargs) == 2:
                return self.resolve('core::convert::TryFrom::try_from', 'core::convert::TryFrom::try_from', [gargs[1], gargs[0]], aty, dty, {}, sub)
        return None

    def _closure_sub(self, cp, sub):
        return sub

    def fnitem(self, p, aty, dty):
        # p is a resolved path string e.g. 'glam::UVec3::as_uvec3' or '<X as Trait>::m'
        if p.startswith('<'):
            t = parse_ty(p)
            if t[0] == 'proj':
                tr = t[2][0]; meth = t[3][0]
                # split trait generics
                trt = parse_ty(tr)
                return ('fncall', p, trt[0] + '::' + meth, [t[1]] + list(trt[1:]))
        return ('fncall', p, p, [])

    def ctor(self, p):
        s = strip_gen(p)
        if '::' not in s: return None
        pre, nm = s.rsplit('::', 1)
        a = self.p.adts.get(pre)
        if a is not None and a['kind'].lower() == 'enum':
            for v in a['variants']:
                if v['name'] == nm:
                    names = tuple(x[0] for x in v['fields'])
                    if names == tuple(str(i) for i in range(len(names))): return (pre, nm, names)
        a = self.p.adts.get(s)
        if a is not None and a['kind'].lower() == 'struct':
            names = tuple(x[0] for x in a['variants'][0]['fields'])
            if names and names == tuple(str(i) for i in range(len(names))): return (s, None, names)
        return None

    def model(self, d, gargs, aty, dty):
        """name of the model for std function d, '' to force opaque, None if there is no model"""
        recv = gargs[0] if gargs else (deref_ty(aty[0]) if aty else ('?',))
        h = recv[0]
        if h in ('&', '&mut') and d.startswith(IT):
            h = deref_ty(recv)[0]
        if recv[0] == 'tracing_core::field::Field' and d == 'core::option::Option::expect': return ''      # inside the tracing macros
        kind = iter_kind(recv)
        if d == 'core::iter::traits::collect::IntoIterator::into_iter':
            t = gargs[0]
            if t[0] in ('&', '&mut'):
                it = t[1]
                if it[0] in ('alloc::vec::Vec', '[]', '[;]'): return 'slice_iter'
                if KIND.get(it[0]): return 'identity'
                return None
            if t[0] in ('alloc::vec::Vec', '[;]'): return 'vec_into_iter'
            if t[0] == 'core::option::Option': return 'option_into_iter'
            if t[0] == 'core::result::Result': return 'res_into_iter'
            if KIND.get(t[0]): return 'identity'
            return None
        if d == IT + 'collect':
            # only for chains of known iterators
            if not self.known_iter(gargs[0]): return None
            if dty[0] == 'alloc::vec::Vec': return 'collect_vec'
            if dty[0] == 'core::result::Result' and dty[1][0] == 'alloc::vec::Vec': return 'collect_result_vec'
            if dty[0] == 'core::option::Option' and dty[1][0] == 'alloc::vec::Vec': return 'collect_option_vec'
            return None
        if d == 'core::iter::traits::collect::Extend::extend':
            if h == 'alloc::vec::Vec':
                src = into_iter_ty(aty[1])
                return 'vec_extend' if self.known_iter(src) else None
            return None
        if d.startswith(IT) or d.startswith(DE):
            r = gargs[0] if gargs else recv
            while r[0] in ('&', '&mut'): r = r[1]
            if not self.known_iter(r): return None
        if d == IT + 'next' and h in ('core::slice::iter::ChunksExact', 'core::slice::iter::Windows', 'core::slice::iter::Chunks'):
            return {'core::slice::iter::ChunksExact': 'chunks_exact_next', 'core::slice::iter::Windows': 'windows_next', 'core::slice::iter::Chunks': 'chunks_next'}[h]
        for k in (kind, h):
            if k and (d, k) in DISPATCH: return DISPATCH[(d, k)]
        if (d, '*') in DISPATCH: return DISPATCH[(d, '*')]
        if d == 'core::array::from_fn' and dty[0] == '[;]' and dty[2][0] in ('2', '3', '4'): return 'array%s_from_fn' % dty[2][0]
        if d.startswith('core::array::<impl [') and d.endswith('::map') and aty and aty[0][0] == '[;]' and aty[0][2][0] in ('2', '3', '4'): return 'array%s_map' % aty[0][2][0]
        if d.startswith('core::slice::<impl [T]>::get') and d.split('::')[-1] in ('get', 'get_mut') and len(aty) > 1 and aty[1][0] == 'usize':
            return 'slice_get'
        # arithmetic on glam vectors
        if d in ARITH:
            op = ARITH[d]
            l = deref_ty(aty[0]); r = deref_ty(aty[1]) if len(aty) > 1 else None
            n = VECS.get(l[0])
            if n:
                base, asg = (op[:-7], '_assign') if op.endswith('_assign') else (op, '')
                if base == 'neg': return 'v%d_neg' % n
                s = '' if VECS.get(r[0]) else 's'
                return 'v%d_%s%s%s' % (n, base, s, asg)
            if r is not None and VECS.get(r[0]) and l[0] in PRIMS:
                return 'sv%d_%s' % (VECS[r[0]], op)
            return None
        if d in GLAM_FN: return GLAM_FN[d]
        if 'glam::' in d:
            meth = last_seg(d)
            a0 = deref_ty(aty[0]) if aty else None
            if meth in ('new', 'splat') and dty[0] in VECS: return GLAM_INH[meth] % VECS[dty[0]]
            if a0 and a0[0] in VECS:
                n = VECS[a0[0]]
                if meth in GLAM_INH and meth not in ('new', 'splat'): return GLAM_INH[meth] % n
                if re.match(r'as_[a-z0-9]*vec%d' % n, meth): return 'v%d_cast' % n
        if d == 'core::convert::From::from' or d == 'core::convert::Into::into':
            s = aty[0]
            if s[0] in VECS and dty[0] in VECS and VECS[s[0]] == VECS[dty[0]]: return 'identity' if VECELT[s[0]] == VECELT[dty[0]] else 'v%d_cast' % VECS[dty[0]]
        return None

    def known_iter(self, t):
        """is t an iterator type all of whose parts are modelled (or implemented locally)?"""
        while t[0] in ('&', '&mut'): t = t[1]
        k = KIND.get(t[0])
        if k is None and self.foreign and t[0] in FOREIGN: return True
        if k is None:
            return bool(self.p.impls.get(('core::iter::traits::iterator::Iterator', 'next')) and any(
                parse_ty(x[0])[0] == t[0] for x in self.p.impls[('core::iter::traits::iterator::Iterator', 'next')]))
        if k in ('enumerate', 'rev', 'map', 'filter', 'filter_map', 'skip', 'take', 'take_while', 'skip_while', 'copied'):
            return self.known_iter(t[1]) if len(t) > 1 else False
        if k in ('zip', 'chain'): return len(t) > 2 and self.known_iter(t[1]) and self.known_iter(t[2])
        if k == 'flat_map': return len(t) > 1 and self.known_iter(t[1])
        return True

# ---------------------------------------------------------------- shifting
def shift_place(p, base):
    out = [p[0] + base]
    for e in p[1:]:
        if isinstance(e, tuple) and e[0] == 'i': out.append(('i', e[1] + base))
        else: out.append(e)
    return tuple(out)
def shift_op(o, base):
    return ('p', shift_place(o[1], base)) if o[0] == 'p' else o
def shift_rv(r, base):
    t = r[0]
    if t == 'use': return ('use', shift_op(r[1], base))
    if t == 'repeat': return ('repeat', shift_op(r[1], base), r[2])
    if t == 'ref': return ('ref', r[1], shift_place(r[2], base))
    if t == 'cast': return ('cast', r[1], shift_op(r[2], base), r[3], r[4])
    if t == 'bin': return ('bin', r[1], shift_op(r[2], base), shift_op(r[3], base), r[4])
    if t == 'un': return ('un', r[1], shift_op(r[2], base))
    if t == 'discr': return ('discr', shift_place(r[1], base), r[2])
    if t == 'agg': return r[:5] + (tuple(shift_op(x, base) for x in r[5]),)
    return r
def shift_stmt(s, base):
    if s[0] == '=': return ('=', shift_place(s[1], base), shift_rv(s[2], base), s[3])
    if s[0] == 'kill': return ('kill', s[1] + base, s[2] + base)
    if s[0] == 'sd': return ('sd', shift_place(s[1], base)) + s[2:]
    if s[0] == 'assert': return ('assert', shift_op(s[1], base)) + s[2:]
    if s[0] == 'call': return ('call', s[1], tuple(shift_op(a, base) for a in s[2]), shift_place(s[3], base), s[4])
    return s
def shift_term(t, base, nb):
    k = t[0]
    if k == 'goto': return ('goto', t[1] + nb)
    if k == 'switch': return ('switch', shift_op(t[1], base), tuple((v, x + nb) for v, x in t[2]), None if t[3] is None else t[3] + nb, t[4])
    if k == 'call': return ('call', t[1], tuple(shift_op(a, base) for a in t[2]), shift_place(t[3], base), None if t[4] is None else t[4] + nb, t[5])
    return t

# ---------------------------------------------------------------- CFG simplification
def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'call': return [t[4]] if t[4] is not None else []
    return []
def retarget(t, m):
    k = t[0]
    if k == 'goto': return ('goto', m(t[1]))
    if k == 'switch': return ('switch', t[1], tuple((v, m(x)) for v, x in t[2]), None if t[3] is None else m(t[3]), t[4])
    if k == 'call': return t[:4] + (None if t[4] is None else m(t[4]),) + t[5:]
    return t

def compact(f):
    """drop unreachable blocks, collapse goto chains and trivial diamonds, merge straight lines"""
    bl = f.blocks
    changed = True
    def trivially(b):
        # follow empty goto blocks
        seen = set()
        while b not in seen:
            seen.add(b)
            x = bl[b]
            if x.stmts or x.term[0] != 'goto': return b
            b = x.term[1]
        return b
    for _ in range(20):
        changed = False
        for x in bl:
            t = x.term
            nt = retarget(t, trivially)
            if nt[0] == 'switch':
                # drop branches to unreachable blocks
                def dead(i): return bl[i].term[0] == 'unreach' and bl[i].term[1] in ('unreachable',) and not bl[i].stmts
                tg = [(v, i) for v, i in nt[2] if not dead(i)]
                ot = nt[3] if nt[3] is not None and not dead(nt[3]) else None
                if (len(tg), ot) != (len(nt[2]), nt[3]):
                    if tg or ot is not None:
                        nt = ('switch', nt[1], tuple(tg), ot, nt[4])
                ss = set(succs(nt))
                if len(ss) == 1: nt = ('goto', ss.pop())
            if nt != t: x.term = nt; changed = True
        # merge straight lines
        preds = {}
        reach = set(); st = [f.entry]
        while st:
            b = st.pop()
            if b in reach: continue
            reach.add(b)
            for s in succs(bl[b].term):
                preds.setdefault(s, []).append(b); st.append(s)
        for b in list(reach):
            x = bl[b]
            while x.term[0] == 'goto':
                s = x.term[1]
                if s == b or s == f.entry or len(preds.get(s, ())) != 1 or s not in reach: break
                y = bl[s]
                x.stmts = x.stmts + y.stmts; x.term = y.term
                if y.org and not x.org: x.org = y.org
                for q in succs(y.term):
                    preds[q] = [b if z == s else z for z in preds[q]]
                reach.discard(s); y.stmts = []; y.term = ('unreach', 'merged')
                changed = True
        if not changed: break
    # renumber
    order = []; seen = set(); st = [f.entry]
    # RPO
    post = []
    stack = [(f.entry, iter(succs(bl[f.entry].term)))]; seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        adv = False
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(succs(bl[s].term)))); adv = True; break
        if not adv: post.append(b); stack.pop()
    order = post[::-1]
    idx = {b: i for i, b in enumerate(order)}
    f.blocks = [Blk(bl[b].stmts, retarget(bl[b].term, lambda z: idx[z]), bl[b].org) for b in order]
    f.entry = 0

def loop_headers(f):
    """targets of DFS back edges (blocks are in RPO)"""
    heads = set()
    for i, b in enumerate(f.blocks):
        for s in succs(b.term):
            if s <= i: heads.add(s)
    return heads

KNOWN_MAX_CLONE = 25

def simplify(f, threads=True, merge=False):
    compact(f)
    if not threads: return
    for rnd in range(12):
        if not thread_once(f): break
        compact(f)
    for rnd in range(6):
        if not merge or not merge_nested(f): break
        compact(f)
        for r2 in range(4):
            if not thread_once(f): break
            compact(f)

def merge_nested(f):
    """a loop whose pass starts with another loop, after nothing but setting up references: one loop over the passes of the inner one"""
    done = False
    for hi, H in enumerate(f.blocks):
        if H.term[0] != 'goto': continue
        i2 = H.term[1]
        if i2 == hi: continue
        preds = [i for i, b in enumerate(f.blocks) if i2 in succs(b.term) and i != hi]
        if not preds or not any(hi in succs(b.term) for i, b in enumerate(f.blocks) if i > hi): continue
        if any(i < i2 for i in preds): continue                    # only ways back
        own = set(); ok = True
        for s in H.stmts:
            if s[0] != '=' or len(s[1]) != 1: ok = False; break
            d = s[1][0]; rv = s[2]
            if rv[0] == 'ref' and (len(rv[2]) == 1 or '*' in rv[2] and not any(isinstance(z, tuple) and z[0] == 'i' for z in rv[2]) and (rv[2][0] in own or assigned(f, rv[2][0]) == 1)): pass
            elif rv[0] == 'use' and rv[1][0] == 'p' and rv[1][1][0] in own: pass
            elif rv[0] == 'use' and rv[1][0] != 'p':
                last = [z[2] for z in H.stmts if z[0] == '=' and z[1] == (d,)][-1]
                if dead_at(f, d, i2) or kept_in(f, d, last, i2, preds, hi): own.add(d); continue
                ok = False; break
            elif rv[0] == 'use' and len(rv[1][1]) == 1 and assigned(f, rv[1][1][0]) == 1 and not any(assigned_in(f.blocks[x], rv[1][1][0]) for x in inner(f, i2, preds, hi)): pass
            else: ok = False; break
            if assigned(f, d) != 1: ok = False; break
            own.add(d)
        if not ok: continue
        for i in preds: f.blocks[i].term = retarget(f.blocks[i].term, lambda z: hi if z == i2 else z)
        done = True
    return done
def assigned(f, d): return sum(1 for b in f.blocks for z in b.stmts if z[0] == '=' and z[1] == (d,) or z[0] == 'call' and z[3] == (d,))
def assigned_in(b, d): return any(z[0] == '=' and z[1][0] == d or z[0] == 'call' and z[3] and z[3][0] == d for z in b.stmts)
def inner(f, h, latches, outer):
    """blocks of the loop with header h"""
    prev = {}
    for i, b in enumerate(f.blocks):
        for j in succs(b.term): prev.setdefault(j, []).append(i)
    seen = {h}; work = list(latches)
    while work:
        x = work.pop()
        if x in seen or x == outer: continue
        seen.add(x); work += prev.get(x, [])
    return seen
def kept_in(f, d, rv, h, latches, outer):
    """nothing in the loop gives d another value than rv"""
    if any(s[0] == '=' and s[2][0] == 'ref' and s[2][2][0] == d for b in f.blocks for s in b.stmts): return False
    return all(s[2] == rv for x in inner(f, h, latches, outer) for s in f.blocks[x].stmts if s[0] == '=' and s[1][0] == d) and not any(s[0] == 'call' and s[3] and s[3][0] == d for x in inner(f, h, latches, outer) for s in f.blocks[x].stmts)
def dead_at(f, d, i):
    """whatever d holds when block i is entered is overwritten before it is read"""
    if any(s[0] == '=' and s[2][0] == 'ref' and s[2][2][0] == d for b in f.blocks for s in b.stmts): return False
    seen = set(); work = [i]
    while work:
        x = work.pop()
        if x in seen: continue
        seen.add(x); b = f.blocks[x]; over = False
        for s in b.stmts:
            if s[0] == '=':
                if d in rv_locals(s[2]) or len(s[1]) > 1 and (s[1][0] == d or any(isinstance(z, tuple) and d in z[1:] for z in s[1])): return False
                if s[1] == (d,): over = True; break
            elif s[0] == 'call':
                if any(d == y for a in s[2] for y in op_locals_(a)): return False
                if s[3] == (d,): over = True; break
            elif s[0] == 'assert' and d in op_locals_(s[1]) or s[0] == 'sd' and s[1][0] == d: return False
        if over: continue
        if d in term_locals(b.term): return False
        work += succs(b.term)
    return True
def term_locals(t):
    out = set()
    def go(x):
        if isinstance(x, (tuple, list)):
            if len(x) == 2 and x[0] == 'p' and isinstance(x[1], tuple): out.add(x[1][0]); return
            for y in x: go(y)
    go(t)
    return out
def op_locals_(o): return (o[1][0],) if o[0] == 'p' else ()
def rv_locals(rv):
    out = []
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'p' and isinstance(x[1], tuple): out.append(x[1][0]); return
            for y in x: go(y)
    go(rv)
    if rv[0] in ('ref', 'discr'): out.append((rv[2] if rv[0] == 'ref' else rv[1])[0])
    return out

def addr_taken(f):
    mut = set(); anyref = set()
    for b in f.blocks:
        for s in b.stmts:
            if s[0] == '=' and s[2][0] == 'ref' and '*' not in s[2][2]:
                anyref.add(s[2][2][0])
                if s[2][1]: mut.add(s[2][2][0])
    return mut, anyref

def tp_assign(st, key, val, mut):
    """facts: dict placekey -> ('v',variantname)|('c',const)|('r',placekey) ; kill sub-keys"""
    n = len(key)
    dead = [k for k in st if k[:n] == key or key[:len(k)] == k]
    for k in dead: del st[k]
    if val is not None: st[key] = val

def tp_key(st, p):
    """resolve a place to a key, following known refs; None if unknown"""
    key = (p[0],)
    for e in p[1:]:
        if e == '*':
            r = st.get(key)
            if r is None or r[0] != 'r': return None
            key = r[1]
        elif isinstance(e, tuple) and e[0] == 'f': key = key + (e[1],)
        else: return None
    return key

def tp_val(st, o):
    if o[0] == 'p':
        k = tp_key(st, o[1])
        return (None, None) if k is None else (st.get(k), k)
    c = o[1]
    v = c.get('v')
    if isinstance(v, dict) and 'adt' in v:
        return ('v', v.get('var')), None
    if isinstance(v, (bool, int)): return ('c', int(v)), None
    return None, None

class Prog0: adts = {}
_PROG = Prog0()
def set_prog(p):
    global _PROG
    _PROG = p

def tp_stmt(st, s, mut):
    if s[0] == 'kill':
        lo, hi = s[1], s[2]
        dead = [k for k, v in st.items() if lo <= k[0] < hi or (v[0] == 'r' and lo <= v[1][0] < hi)]
        for k in dead: del st[k]
        return
    if s[0] == 'sd':
        k = tp_key(st, s[1])
        if k is not None: st.pop(k, None)
        return
    if s[0] == 'call':
        tp_call(st, s, mut); return
    if s[0] != '=': return
    p, rv = s[1], s[2]
    key = tp_key(st, p)
    if key is None:
        if '*' in p:
            for k in [k for k in st if k[0] in mut and st[k][0] != 'r']: del st[k]
        else:
            # array element etc.
            for k in [k for k in st if k[0] == p[0]]: del st[k]
        return
    t = rv[0]
    if t == 'use':
        o = rv[1]
        v, src = tp_val(st, o)
        sub = {}
        if src is not None:
            n = len(src)
            for k, x in st.items():
                if k[:n] == src and len(k) > n: sub[k[n:]] = x
        tp_assign(st, key, v, mut)
        if o[0] == 'k':
            cv = o[1].get('v')
            if isinstance(cv, dict) and 'adt' in cv:
                var = cv.get('var'); fl = cv.get('fields') or []
                a = _PROG.adts.get(strip_gen(cv['adt']))
                names = None
                if a:
                    for vv in a['variants']:
                        if vv['name'] == var: names = [x[0] for x in vv['fields']]
                if names and len(names) == len(fl):
                    for nme, x in zip(names, fl):
                        if isinstance(x, dict) and 'adt' in x: st[key + ((var + '.' if a['kind'].lower() == 'enum' else '') + nme,)] = ('v', x.get('var'))
                        elif isinstance(x, (bool, int)): st[key + ((var + '.' if a['kind'].lower() == 'enum' else '') + nme,)] = ('c', int(x))
        for k, x in sub.items(): st[key + k] = x
    elif t == 'agg':
        vals = []
        for nme, o in zip(rv[4], rv[5]):
            v, src = tp_val(st, o)
            nm = (rv[3] + '.' if rv[3] else '') + nme
            if v is not None: vals.append(((nm,), v))
            if src is not None:
                n = len(src)
                for k, x in list(st.items()):
                    if k[:n] == src and len(k) > n: vals.append(((nm,) + k[n:], x))
        tp_assign(st, key, ('v', rv[3]) if rv[3] else None, mut)
        for k, x in vals: st[key + k] = x
    elif t == 'ref':
        k2 = tp_key(st, rv[2])
        tp_assign(st, key, ('r', k2) if k2 is not None else None, mut)
    elif t == 'discr':
        k2 = tp_key(st, rv[1])
        val = None
        if k2 is not None:
            v = st.get(k2)
            if v is not None and v[0] == 'v':
                val = discr_of(rv[2], v[1])
        tp_assign(st, key, ('c', val) if val is not None else None, mut)
    elif t == 'un' and rv[1] == 'Not':
        v, _ = tp_val(st, rv[2])
        tp_assign(st, key, ('c', 1 - v[1]) if v is not None and v[0] == 'c' and v[1] in (0, 1) else None, mut)
    elif t == 'bin' and rv[1] in ('Eq', 'Ne'):
        a, _ = tp_val(st, rv[2]); b, _ = tp_val(st, rv[3])
        val = None
        if a and b and a[0] == 'c' and b[0] == 'c': val = int((a[1] == b[1]) == (rv[1] == 'Eq'))
        tp_assign(st, key, ('c', val) if val is not None else None, mut)
    else:
        tp_assign(st, key, None, mut)

STD_DISCR = {'core::option::Option': {'None': 0, 'Some': 1}, 'core::result::Result': {'Ok': 0, 'Err': 1},
             'core::ops::control_flow::ControlFlow': {'Continue': 0, 'Break': 1}}
def discr_of(adt, var):
    d = STD_DISCR.get(adt)
    if d and var in d: return d[var]
    a = _PROG.adts.get(adt)
    if a:
        for v in a['variants']:
            if v['name'] == var:
                try: return int(v['discr'])
                except Exception: return None
    return None

def discrs(adt):
    d = STD_DISCR.get(adt)
    if d: return set(d.values())
    a = _PROG.adts.get(adt)
    try: return {int(v['discr']) for v in a['variants']} if a else None
    except Exception: return None

def tp_call(st, t, mut):
    # opaque call: dest unknown; &mut args clobber
    for a in t[2]:
        if a[0] == 'p':
            k = tp_key(st, a[1])
            v = st.get(k) if k is not None else None
            if v is not None and v[0] == 'r':
                tgt = v[1]
                if tgt[0] in mut:
                    for q in [q for q in st if (q[:len(tgt)] == tgt or tgt[:len(q)] == q) and st[q][0] != 'r']: del st[q]
    k = tp_key(st, t[3])
    if k is not None: tp_assign(st, k, None, mut)
    else:
        for q in [q for q in st if q[0] in mut and st[q][0] != 'r']: del st[q]

def tp_switch(st, t):
    v, _ = tp_val(st, t[1])
    if v is None or v[0] != 'c': return None
    for c, x in t[2]:
        if c == v[1]: return x
    return t[3]

def thread_once(f):
    n = len(f.blocks)
    mut, _ = addr_taken(f)
    heads = loop_headers(f)
    IN = [None] * n
    IN[f.entry] = {}
    preds = [[] for _ in range(n)]
    for i, b in enumerate(f.blocks):
        for s in succs(b.term): preds[s].append(i)
    OUTE = {}   # (pred, succ) -> state
    dirty = True
    it = 0
    order = range(n)
    work = [True] * n
    while dirty and it < 30:
        dirty = False; it += 1
        for i in order:
            if not work[i] or IN[i] is None: continue
            work[i] = False
            st = dict(IN[i])
            b = f.blocks[i]
            for s in b.stmts: tp_stmt(st, s, mut)
            t = b.term
            outs = []
            if t[0] == 'call':
                tp_call(st, t, mut)
                outs = [(x, st) for x in succs(t)]
            elif t[0] == 'switch':
                # edge facts: switch operand local known on value edges ; and variant of the matched place
                k = tp_key(st, t[1][1]) if t[1][0] == 'p' else None
                dsrc = None
                if k is not None:
                    for s in reversed(b.stmts):
                        if s[0] == '=' and s[1] == (k[0],) and len(k) == 1:
                            if s[2][0] == 'discr': dsrc = (tp_key(st, s[2][1]), s[2][2])
                            break
                cnt = {}
                for x in succs(t): cnt[x] = cnt.get(x, 0) + 1
                for v, x in t[2]:
                    st2 = st
                    if k is not None and cnt[x] == 1:
                        st2 = dict(st); st2[k] = ('c', v)
                        if dsrc and dsrc[0] is not None:
                            vn = variant_of(dsrc[1], v)
                            if vn: st2[dsrc[0]] = ('v', vn)
                    outs.append((x, st2))
                if t[3] is not None:
                    st2 = st
                    if k is not None and cnt[t[3]] == 1:
                        vals = [v for v, _ in t[2]]
                        if dsrc and dsrc[0] is not None:
                            vn = other_variant(dsrc[1], vals)
                            if vn: st2 = dict(st); st2[dsrc[0]] = ('v', vn)
                        elif vals == [0] and f.locals[k[0]][0] == ('bool',) and len(k) == 1:
                            st2 = dict(st); st2[k] = ('c', 1)
                    outs.append((t[3], st2))
            else:
                outs = [(x, st) for x in succs(t)]
            for x, s2 in outs:
                OUTE[(i, x)] = s2 if (i, x) not in OUTE or True else None
                if IN[x] is None:
                    IN[x] = dict(s2); work[x] = True; dirty = True
                else:
                    cur = IN[x]
                    bad = [kk for kk, vv in cur.items() if s2.get(kk) != vv]
                    if bad:
                        for kk in bad: del cur[kk]
                        work[x] = True; dirty = True
    # threading
    did = False
    new = []
    budget = 400
    for i in range(n):
        if IN[i] is None: continue
        b = f.blocks[i]
        t = b.term
        # switch decided in place
        if t[0] == 'switch':
            st = dict(IN[i])
            for s in b.stmts: tp_stmt(st, s, mut)
            x = tp_switch(st, t)
            if x is not None:
                b.term = ('goto', x); t = b.term; did = True
    for i in range(n):
        if IN[i] is None: continue
        t = f.blocks[i].term
        for x in set(succs(t)):
            if budget <= 0: break
            st0 = OUTE.get((i, x))
            if st0 is None: continue
            path = walk_thread(f, x, st0, heads, mut, preds, i)
            if path is None: continue
            blocks, final, keep = path
            # clone blocks in path, last one ends with goto final
            base = len(f.blocks) + len(new)
            for j, bb in enumerate(blocks):
                src = f.blocks[bb]
                nt = ('goto', base + j + 1) if j + 1 < len(blocks) else ('goto', final)
                new.append(Blk(list(src.stmts), nt, src.org))
            tgt = base
            if t[0] == 'goto': t = ('goto', tgt)
            elif t[0] == 'switch':
                t = ('switch', t[1], tuple((v, tgt if y == x else y) for v, y in t[2]), tgt if t[3] == x else t[3], t[4])
            elif t[0] == 'call': t = t[:4] + (tgt,) + t[5:]
            f.blocks[i].term = t
            did = True; budget -= 1
    f.blocks.extend(new)
    return did

def variant_of(adt, d):
    m = STD_DISCR.get(adt)
    if m:
        for k, v in m.items():
            if v == d: return k
    a = _PROG.adts.get(adt)
    if a and a['kind'].lower() == 'enum':
        for v in a['variants']:
            try:
                if int(v['discr']) == d: return v['name']
            except Exception: pass
    return None
def other_variant(adt, vals):
    m = STD_DISCR.get(adt)
    if not m:
        a = _PROG.adts.get(adt)
        if not a or a['kind'].lower() != 'enum': return None
        try: m = {v['name']: int(v['discr']) for v in a['variants']}
        except Exception: return None
    r = [k for k, v in m.items() if v not in vals]
    return r[0] if len(r) == 1 else None

def walk_thread(f, x, st0, heads, mut, preds, frm):
    """follow single-successor blocks from x under facts st0 until a decided switch that is undecided without them.
    Only worthwhile if at least one join is passed."""
    blocks = []; st = dict(st0); joins = 0; nst = 0
    cur = x; last = None
    best = None
    seen = set()
    while len(blocks) < 12:
        if cur in seen or cur in heads: break
        seen.add(cur)
        b = f.blocks[cur]
        if len(preds[cur]) > 1: joins += 1
        nst += len(b.stmts)
        if nst > 60: break
        for s in b.stmts: tp_stmt(st, s, mut)
        blocks.append(cur)
        t = b.term
        if t[0] == 'goto':
            cur = t[1]; continue
        if t[0] == 'switch':
            y = tp_switch(st, t)
            if y is None: break
            if joins: best = (list(blocks), y)
            # edge facts continue
            cur = y
            continue
        break
    if best is None: return None
    return best[0], best[1], None

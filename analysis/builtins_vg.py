"""Primitive and std functions the value-graph interpreter evaluates itself."""
from vg import *
import flat as FL
from facts import *

NEVER = mk('never')
def val(vg, st, v):
    """strip references"""
    d = 0
    while v.op in ('ref',) and d < 4:
        v = vg.rd(st, v.a[0], v.a[1]); d += 1
    if v.op == 'sref': return vg.slice_val(st, v)
    return v
def loc(vg, v):
    """reference value -> location"""
    return vg.deref(v)

CMP = {'lt': lambda a, b, f=False, u=False: lt(a, b, f, u), 'gt': lambda a, b, f=False, u=False: lt(b, a, f, u), 'le': lambda a, b, f=False, u=False: neg(lt(b, a, f, u)), 'ge': lambda a, b, f=False, u=False: neg(lt(a, b, f, u))}
def flty(ci):
    return any(deref_all(t) in (('f32',), ('f64',)) for t in ci.get('_aty') or [])
def unsty(ci):
    return any(deref_all(t)[0] in UNS for t in ci.get('_aty') or [])
def deref_all(t):
    while isinstance(t, tuple) and t[0] in ('&', '&mut') and len(t) > 1: t = t[1]
    return t
OPS = {'core::ops::arith::Add::add': 'add', 'core::ops::arith::Sub::sub': 'sub', 'core::ops::arith::Mul::mul': 'mul', 'core::ops::arith::Div::div': 'div',
       'core::ops::arith::Rem::rem': 'rem', 'core::ops::bit::BitAnd::bitand': 'and', 'core::ops::bit::BitOr::bitor': 'or', 'core::ops::bit::BitXor::bitxor': 'xor',
       'core::ops::bit::Shl::shl': 'shl', 'core::ops::bit::Shr::shr': 'shr'}
OPSA = {k.replace('::%s' % v if False else k.split('::')[-2] + '::' + k.split('::')[-1], '') + {'Add': 'AddAssign::add_assign', 'Sub': 'SubAssign::sub_assign', 'Mul': 'MulAssign::mul_assign', 'Div': 'DivAssign::div_assign', 'Rem': 'RemAssign::rem_assign', 'BitAnd': 'BitAndAssign::bitand_assign', 'BitOr': 'BitOrAssign::bitor_assign', 'BitXor': 'BitXorAssign::bitxor_assign', 'Shl': 'ShlAssign::shl_assign', 'Shr': 'ShrAssign::shr_assign'}[k.split('::')[-2]]: v for k, v in OPS.items()}
DEREF_TRANSPARENT = ('alloc::vec::Vec', 'glam::f32::sse2::vec3a::Vec3A', 'alloc::boxed::Box', '[]', '[;]')
COPYING = {'core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::into_vec',
           'core::clone::impls::Clone::clone'}
UNARY_PURE = {'floor', 'ceil', 'round', 'sqrt', 'abs', 'cos', 'sin', 'tan', 'to_radians', 'to_degrees', 'unsigned_abs', 'trunc', 'signum', 'is_nan', 'is_finite', 'normalize', 'normalize_or_zero', 'recip', 'exp', 'ln'}

def as_slice(vg, st, v, ty):
    """reference to Vec/array/slice -> sref"""
    if v.op == 'sref': return v
    c = vg.deref(v)
    if c[0] == 'sl': return c[1]
    if c[0] == 'loc':
        return mk('sref', c[1], c[2], ZERO, vg.rd(st, c[1] + ('#len',), c[2]))

def range_bounds(vg, st, r, n):
    """index value that is a range -> (lo, len) or None"""
    if r.op == 'agg' and r.a[1]:
        p = r.a[1].split('::')[-1]
        f = lambda x: fld(r, x)
        if p == 'Range': return f('start'), binop('sub', f('end'), f('start'))
        if p == 'RangeFrom': return f('start'), binop('sub', n, f('start'))
        if p == 'RangeTo': return ZERO, f('end')
        if p == 'RangeFull': return ZERO, n
        if p == 'RangeInclusive': return f('start'), binop('sub', binop('add', f('end'), const(1)), f('start'))
        if p == 'RangeToInclusive': return ZERO, binop('add', f('end'), const(1))
    return None

def builtin(vg, st, ci, vals, org):
    d = ci.get('_decl') or ''
    aty = ci.get('_aty') or []
    dty = ci.get('_dty') or ('?',)
    prim = ci.get('_prim')
    if prim: return primitive(vg, st, ci, prim, vals, org)
    if ci.get('_name') and ci['_name'] in vg.p.bodies: return None
    seg = d.rsplit('::', 1)[-1]
    V = lambda i: val(vg, st, vals[i])

    if d in ('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut'):
        base, idx = vals[0], vals[1]
        rt = deref_ty(aty[0]) if aty else ('?',)
        it = aty[1] if len(aty) > 1 else ('?',)
        if rt[0] in FL.VECS:
            c = vg.deref(base)
            if c[0] == 'loc':
                j = num(idx)
                if j is not None and 0 <= j < 3: return mk('ref', c[1] + (('x', 'y', 'z')[j],), c[2])
                return mk('ref', c[1] + ('[v]',), c[2] + (idx,))
        if it[0].startswith('core::ops::range::'):
            s = as_slice(vg, st, base, rt)
            rb = range_bounds(vg, st, idx, s.a[3])
            if vg.rec: vg.event('index', (s, idx, 'range', rb), org)
            if rb is None: rb = (fld(idx, 'start'), binop('sub', fld(idx, 'end'), fld(idx, 'start')))
            return mk('sref', s.a[0], s.a[1], binop('add', s.a[2], rb[0]), rb[1])
        c = vg.deref(base)
        i = val(vg, st, idx) if it[0] in ('&',) else idx
        if vg.rec: vg.event('index', (base, i, 'elem', vg.length(st, c)), org)
        l = vg.index(c, i)
        return mk('ref', l[1], l[2])
    if d in ('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut'):
        rt = deref_ty(aty[0]) if aty else ('?',)
        if rt[0] == 'alloc::vec::Vec': return as_slice(vg, st, vals[0], rt)
        if rt[0] == 'glam::f32::sse2::vec3a::Vec3A': return vals[0]
        if rt[0] == 'alloc::boxed::Box':
            c = vg.deref(vals[0])
            return mk('ref', c[1] + ('*',), c[2]) if c[0] == 'loc' else vals[0]
        # smart pointers (Res, ResMut, Mut, Arc ...): one pointee object per pointer value
        c = vg.deref(vals[0])
        if c[0] == 'loc' and dty[0] in ('&', '&mut'): return mk('ref', c[1] + ('*',), c[2])
        return None
    if d in ('alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice', 'core::slice::<impl [T]>::as_ref', 'core::slice::<impl [T]>::as_slice'):
        return as_slice(vg, st, vals[0], None)
    if d in ('core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut', 'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut'):
        if dty[0] in ('&', '&mut') and dty[1][0] == '[]': return as_slice(vg, st, vals[0], None)
        return vals[0]
    if d in ('alloc::vec::Vec::len', 'core::slice::<impl [T]>::len'):
        c = vg.deref(vals[0])
        return vg.length(st, c)
    if d in ('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity'): return mk('vec0')
    if d == 'core::default::Default::default':
        t = dty
        if t[0] == 'alloc::vec::Vec': return mk('vec0')
        if t[0] in INT_BITS and t[0] != 'bool': return ZERO
        if t[0] == 'bool': return FALSE
        if t[0] in ('f32', 'f64'): return const(('f', 0.0))
        if t[0] == 'core::option::Option': return agg('adt', 'core::option::Option', 'None', (), ())
        if t[0] in FL.VECS:
            n = FL.VECS[t[0]]
            z = const(('f', 0.0)) if FL.VECELT[t[0]].startswith('f') else ZERO
            return agg('adt', 'models::V%d' % n, None, ('x', 'y', 'z')[:n], (z,) * n)
        if t[0] == '()': return mk('agg', 'tuple', None, None, tuple(str(i) for i in range(len(t) - 1)), tuple(default_of(x) for x in t[1:]))
        return mk('default', show_ty(t))
    if d.endswith('::is_multiple_of') and num(V(1)): return eq(binop('rem', V(0), V(1)), ZERO)
    if d == 'alloc::vec::from_elem': return mk('vecfill', vals[0], vals[1])
    if d == 'alloc::boxed::Box::new': return mk('agg', 'adt', 'box', None, ('*',), (vals[0],))
    if d == 'alloc::boxed::Box::new_uninit': return mk('call', 'new_uninit', (), vg.site())
    if d in ('alloc::slice::<impl [T]>::into_vec', 'alloc::boxed::box_assume_init_into_vec_unsafe'):
        v = vals[0]
        if v.op == 'call' and v.a[0] == 'new_uninit': return vg.rd(st, (('O', v), 'value', 'value'), ())
        if v.op == 'agg' and v.a[1] == 'box': return v.a[4][0]
        return v
    if d in ('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned') or d.endswith('<impl [T]>::to_vec'):
        v = vals[0]
        if v.op == 'sref': return slice_to_vec(vg, st, v)
        c = vg.deref(v)
        rt = aty[0][1] if aty and aty[0][0] in ('&', '&mut') else ('?',)
        if c[0] == 'sl': return slice_to_vec(vg, st, c[1])
        r = vg.rd(st, c[1], c[2])
        return r
    if d == 'core::clone::Clone::clone_from':
        c = vg.deref(vals[0]); vg.write_loc(st, c[1], c[2], V(1), org); return UNIT
    if d in OPS and len(vals) == 2 and prim_ty(aty):
        return binop('fdiv' if OPS[d] == 'div' and flty(ci) else OPS[d], V(0), V(1))
    if d in OPSA and len(vals) == 2 and prim_ty(aty):
        c = vg.deref(vals[0]); v = binop('fdiv' if OPSA[d] == 'div' and flty(ci) else OPSA[d], vg.rd(st, c[1], c[2]), V(1))
        vg.write_loc(st, c[1], c[2], v, org); return UNIT
    if d == 'core::ops::arith::Neg::neg' and prim_ty(aty): 
        return const(-num(V(0))) if num(V(0)) is not None else mk('neg', V(0))
    if d == 'core::ops::bit::Not::not': 
        return neg(V(0)) if dty == ('bool',) else mk('bnot', V(0))
    if d == 'core::cmp::PartialEq::eq': return eq(deepv(vg, st, vals[0]), deepv(vg, st, vals[1]))
    if d == 'core::cmp::PartialEq::ne': return neg(eq(deepv(vg, st, vals[0]), deepv(vg, st, vals[1])))
    if d.startswith('core::cmp::PartialOrd::') and seg in CMP: return CMP[seg](deepv(vg, st, vals[0]), deepv(vg, st, vals[1]), flty(ci), unsty(ci))
    if d in ('core::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp') or seg == 'total_cmp':
        return mk('cmp', deepv(vg, st, vals[0]), deepv(vg, st, vals[1]))
    if d in ('core::cmp::Ord::min', 'core::cmp::Ord::max') or (seg in ('min', 'max') and ('impl f32' in d or 'impl f64' in d)) or d in ('core::cmp::min', 'core::cmp::max'):
        return binop(seg, V(0), V(1))
    if d in ('core::convert::From::from', 'core::convert::Into::into'):
        s, t = aty[0], dty
        if s == t: return vals[0]
        if s[0] in INT_BITS or s[0] in ('f32', 'f64'):
            if t[0] in INT_BITS or t[0] in ('f32', 'f64'): return cast(t[0], vals[0], s[0])
            if t == ('core::option::Option', s): return agg('adt', 'core::option::Option', 'Some', ('0',), (vals[0],))
        if t[0] == 'core::option::Option' and len(t) > 1 and t[1] == s: return agg('adt', 'core::option::Option', 'Some', ('0',), (vals[0],))
        if t[0] == 'alloc::vec::Vec' and s[0] in ('[;]',): return vals[0]
        if t[0] == 'alloc::vec::Vec' and s[0] == '&': return V(0)
        if s[0] == '()' and t[0] in FL.VECS or s[0] == '[;]' and t[0] in FL.VECS or (t[0] in ('()', '[;]') and s[0] in FL.VECS):
            return veclike(vals[0], s, t)
        if t[0] == 'alloc::boxed::Box' and len(t) > 1 and t[1] == s: return mk('agg', 'adt', 'box', None, ('*',), (vals[0],))
        return None
    if d in ('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into'):
        if dty[0] == 'core::result::Result' and dty[1][0] in INT_BITS and aty[0][0] in INT_BITS:
            return mk('tryint', dty[1][0], vals[0], aty[0][0])
        return None
    if 'impl ' in d and any('<impl %s>' % t in d for t in list(INT_BITS) + ['f32', 'f64']):
        a = [val(vg, st, v) for v in vals]
        if seg.startswith('wrapping_') and seg[9:] in ('add', 'sub', 'mul'): return mk('w' + seg[9:], a[0], a[1])
        if seg.startswith('checked_') and seg[8:] in ('add', 'sub', 'mul', 'div'): return mk('checked', seg[8:], a[0], a[1], show_ty(deref_ty(aty[0])))
        if seg.startswith('saturating_'):
            x = mk('sat', seg[11:], *(a + [deref_ty(aty[0])[0]]))
            return x
        if seg == 'rem_euclid': return mk('rem', *a)
        if seg in ('min', 'max'): return binop(seg, *a)
        if seg == 'abs_diff': return mk('abs', binop('sub', a[0], a[1]))
        if seg == 'mul_add': return binop('add', binop('mul', a[0], a[1]), a[2])
        if seg == 'powi' and num(a[1]) == 2: return binop('mul', a[0], a[0])
        if seg == 'pow' and num(a[1]) == 2: return binop('mul', a[0], a[0])
        if seg in UNARY_PURE: return mk(seg if seg != 'unsigned_abs' else 'abs', *a)
        return None
    if 'glam::' in d and seg in ('to_array', 'from_array', 'to_cols_array', 'into') and aty:
        if aty[0][0] in FL.VECS or dty[0] in FL.VECS: return veclike(vals[0], aty[0], dty)
        if deref_ty(aty[0])[0] in FL.VECS: return veclike(V(0), deref_ty(aty[0]), dty)
    if d == 'core::slice::<impl [T]>::fill':
        s = as_slice(vg, st, vals[0], None)
        root = s.a[0][0]
        if num(s.a[2]) == 0 and '[]' not in s.a[0]:
            path = s.a[0][1:] + ('[]',)
            whole = vg.rd(st, s.a[0] + ('#len',), s.a[1]) is s.a[3]
            if whole:
                m = dict(st.m.get(root) or {})
                for q in [q for q in m if q[:len(path)] == path]: del m[q]
                m[path] = mk('fillv', vals[1]); st.m[root] = m
                if vg.rec: vg.event('store', (s.a[0] + ('[]',), s.a[1] + (mk('any', 'all'),), vals[1], mk('undef', 'old')), org)
                return UNIT
        return None
    if d in ('core::hint::black_box',): return vals[0]
    if d in ('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut') :
        s = as_slice(vg, st, vals[0], None)
        rb = range_bounds(vg, st, vals[1], s.a[3])
        if rb:
            return mk('getrange', mk('sref', s.a[0], s.a[1], binop('add', s.a[2], rb[0]), rb[1]))
    if d.startswith('alloc::vec::Vec::reserve') or d == 'alloc::vec::Vec::shrink_to_fit': return UNIT
    if d in ('core::slice::iter::Iter::as_slice',): return None
    if d in ('core::panicking::panic', 'core::panicking::panic_fmt'):
        if vg.rec: vg.event('panic', (d, tuple(vals)), org)
        return NEVER
    return None

def default_of(t):
    if t[0] in INT_BITS and t[0] != 'bool': return ZERO
    if t[0] == 'bool': return FALSE
    if t[0] in ('f32', 'f64'): return const(('f', 0.0))
    return mk('default', show_ty(t))

def veclike(v, s, t):
    names = ('x', 'y', 'z')
    def get(v, ty, i):
        if ty[0] in FL.VECS: return fld(v, names[i])
        if ty[0] == '()': return fld(v, str(i))
        return elem(v, const(i))
    n = FL.VECS.get(t[0]) or FL.VECS.get(s[0])
    xs = tuple(get(v, s, i) for i in range(n))
    if t[0] in FL.VECS: return agg('adt', 'models::V%d' % n, None, names[:n], xs)
    if t[0] == '()': return mk('agg', 'tuple', None, None, tuple(str(i) for i in range(n)), xs)
    return mk('arr', *xs)

def slice_to_vec(vg, st, s):
    base = vg.rd(st, s.a[0], s.a[1])
    if num(s.a[2]) == 0 and fld(base, '#len') is s.a[3]: return base
    return mk('slice', base, s.a[2], s.a[3])

def deepv(vg, st, v):
    return vg.deep(st, v, 4)

def prim_ty(aty):
    for t in aty:
        t = deref_ty(t)
        if t[0] not in INT_BITS and t[0] not in ('f32', 'f64') and not len(t[0]) <= 2: return False
    return True

def primitive(vg, st, ci, name, vals, org):
    if name == 'len':
        v = vals[0]
        c = vg.deref(v)
        if c[0] == 'loc':
            # reference to a reference to a container
            x = vg.rd(st, c[1], c[2])
            k = 0
            while x.op in ('ref', 'sref') and k < 4:
                c = vg.deref(x)
                if c[0] == 'sl': break
                x = vg.rd(st, c[1], c[2]); k += 1
        return vg.length(st, c)
    if name == 'at':
        c = cont(vg, st, vals[0])
        if vg.rec: vg.event('index', (vals[0], vals[1], 'model', vg.length(st, c)), org)
        l = vg.index(c, vals[1])
        return mk('ref', l[1], l[2])
    if name == 'set_len':
        c = cont(vg, st, vals[0])
        if c[0] == 'loc':
            vg.write_loc(st, c[1] + ('#len',), c[2], vals[1], org)
            if num(vals[1]) == 0 and '[]' not in c[1]:
                # an emptied list has no content left
                root = c[1][0]; pth = c[1][1:] + ('[]',)
                m = {k: x for k, x in (st.m.get(root) or {}).items() if k[:len(pth)] != pth}
                m[pth] = UNDEF; st.m[root] = m
        return UNIT
    if name == 'sub':
        c = cont(vg, st, vals[0])
        return vg.subslice(c, vals[1], vals[2])
    if name == 'read':
        c = vg.deref(vals[0])
        if c[0] == 'sl': return vg.slice_val(st, c[1])
        return vg.rd(st, c[1], c[2])
    if name == 'panic':
        if vg.rec: vg.event('panic', ('unwrap', ()), org)
        return NEVER
    if name == 'new_vec': return mk('vec0')
    if name == 'cast':
        aty = ci.get('_aty') or [('?',)]; dty = ci.get('_dty') or ('?',)
        if vals[0].op == 'vec0': return vals[0]
        if aty[0][0] in PRIMS and dty[0] in PRIMS: return cast(dty[0], vals[0], aty[0][0])
        return vals[0] if vals[0].op in ('const',) else mk('ncast', vals[0], show_ty(dty))
    if name in ('min', 'max'): return binop(name, deepv(vg, st, vals[0]) if vals[0].op == 'ref' else vals[0], deepv(vg, st, vals[1]) if vals[1].op == 'ref' else vals[1])
    if name == 'lt': return lt(deepv(vg, st, vals[0]), deepv(vg, st, vals[1]), flty(ci), unsty(ci))
    if name == 'eq': return eq(deepv(vg, st, vals[0]), deepv(vg, st, vals[1]))
    if name == 'sqrt': return mk('sqrt', vals[0])
    if name == 'opaque':
        dty = ci.get('_dty') or ('?',)
        if dty[0] in ('f32', 'f64'): return const(('f', 0.0))
        return ZERO if dty[0] in INT_BITS else mk('default', show_ty(dty))
    return None

def cont(vg, st, v):
    """container location behind (possibly several) references"""
    c = vg.deref(v)
    k = 0
    while c[0] == 'loc' and k < 4:
        x = vg.rd(st, c[1], c[2])
        if x.op in ('ref', 'sref'): c = vg.deref(x); k += 1
        else: break
    return c

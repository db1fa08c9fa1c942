from lib import *
EXPLAIN = ('Effect analysis over the MIR of every workspace crate (build scripts excluded): every unsafe block written in the repository, every call of an unsafe '
           'function, every raw-pointer dereference, transmute and static is listed; the only unsafe operation accepted is a transmute between two types that '
           'both consist of one integer of the same width.')
INTS = set(V.INT_BITS)
def single_int(P, ty, d=4):
    t = parse_ty(ty) if isinstance(ty, str) else ty
    if t[0] in INTS: return t[0]
    if d == 0: return None
    a = P.adts.get(t[0])
    if not a or a['kind'].lower() != 'struct' or len(a['variants']) != 1: return None
    fs = [f for f in a['variants'][0]['fields'] if 'PhantomData' not in f[1]]
    return single_int(P, fs[0][1], d - 1) if len(fs) == 1 else None
def run(P, R):
    nblocks = 0
    bodies = list(user_bodies(P, expn=True))
    seen = {}
    for c, u in P.unsafe:
        fn, file, line, ex = u
        if '::_::' in fn: continue
        if not ex: seen.setdefault(fn, set()).add(line); nblocks += 1
    ops = {}
    FMT = re.compile(r"^core::fmt::(Arguments|rt::)")
    SYS = 'bevy_ecs::system::system_param::SystemParam::'
    rawd = set()
    for b in bodies:
        p = b['path']
        ptr = {i for i, l in enumerate(b['locals']) if l[0].startswith('*')}
        R.ok('every function body is inspected', p) if False else None
        for i, ci, t in calls(b):
            d = decl(ci)
            if ci and ci.get('unsafe') and not FMT.match(d):
                if 'transmute' in d: 
                    ga = ci.get('gargs') or []
                    ops.setdefault(p, []).append(('transmute', ga[0] if ga else '?', ga[1] if len(ga) > 1 else '?'))
                else: ops.setdefault(p, []).append(('call', d))
            if d.startswith(('core::intrinsics::', 'core::mem::maybe_uninit')) and not d.endswith('box_new') and 'MaybeUninit::uninit' in d: ops.setdefault(p, []).append(('call', d))
        boxraw = set()
        for i, s in rvalues(b):
            rv = s[2]
            if rv[0] == 'cast' and 'Transmute' in str(rv[1]):
                to, fr = rv[3], rv[4]
                if str(fr).startswith(('alloc::boxed::BoxRaw', 'core::ptr::unique', 'core::ptr::non_null', 'alloc::boxed::Box<')):
                    boxraw.add(s[1][0] if isinstance(s[1], list) else s[1]); continue
                ops.setdefault(p, []).append(('transmute', fr, to))
        def places(x):
            if isinstance(x, list):
                if x and isinstance(x[0], int) and '*' in x[1:]:
                    yield x
                for y in x: yield from places(y)
            elif isinstance(x, dict):
                for y in x.values(): yield from places(y)
        for bl in b['blocks']:
            if not bl: continue
            for pl in places([bl['s'], bl['t']]):
                if pl[0] in ptr and pl[1] == '*' and pl[0] not in boxraw and not b.get('expn'): rawd.add((p, pl[0]))
        if b.get('unsafe'): R.fail('no unsafe function', short(p), '%s is declared unsafe' % p)
    for p, l in rawd:
        R.fail('no raw pointer dereference', short(p), '%s dereferences a raw pointer' % p)
    for p, l in ops.items():
        for o in l:
            if o[0] == 'transmute':
                a, b = single_int(P, o[1]), single_int(P, o[2])
                R.check(a is not None and a == b, 'a transmute converts between single integers of one width', '%s: %s -> %s' % (short(p), o[1].split('::')[-1], o[2].split('::')[-1]),
                        'in %s: transmute from %s (%s) to %s (%s)' % (p, o[1], a, o[2], b))
            else:
                R.fail('no call of an unsafe function', '%s -> %s' % (short(p), o[1]), '%s calls the unsafe function %s' % (p, o[1]))
    # an unsafe block whose operations were not recognised above
    for fn, lines in seen.items():
        base = fn.split('::{closure')[0]
        mine = [o for p, l in ops.items() if p.split('::{closure')[0] == base for o in l]
        R.check(len(mine) >= len(lines), 'every unsafe block contains only recognised operations', short(fn), '%s has %d unsafe block(s) but only %d recognised unsafe operation(s)' % (fn, len(lines), len(mine)))
    for c, s in P.statics:
        path, ty, mut, tls = s
        if mut: R.fail('no mutable static', path, 'static mut %s: %s' % (path, ty))
        else: R.ok('no mutable static', path)
    for k in P.uimpl: R.fail('no unsafe impl', k[1], 'unsafe impl in %s: %s' % k) if not k[2] else None
    R.ok('bodies inspected', len(bodies))
    R.note('bodies_inspected', len(bodies))
    if len(bodies) < 300: R.fail('bodies inspected', 'count', 'only %d function bodies found' % len(bodies))

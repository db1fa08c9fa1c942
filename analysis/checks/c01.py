from lib import *
EXPLAIN = ('Who-may-call and effect analysis: no function of the pipeline crates, the mesh and collider conversions or the editor build step may read an ambient '
           'source (clock, randomness, environment, files, threads, addresses, hash order) or keep state in a static; callees are resolved through the type-checked MIR.')
BAD = [
 ('clock', r'(std::time::|^std::sys.*time|Instant::now|SystemTime::now|web_time|bevy_time::)'),
 ('randomness', r'(^|::)(rand|rand_core|rand_chacha|fastrand|getrandom|oorandom|uuid)::|RandomState::new|hash::random|BuildHasher::hash_one'),
 ('environment, files or processes', r'^std::(env|fs|net|process|io|os|backtrace)::|std::path::Path::(exists|metadata|read)'),
 ('threads', r'^std::thread::|rayon|bevy_tasks|crossbeam|async_executor|futures|tokio'),
 ('shared state', r'^(core|std|alloc)::sync::(atomic|mutex|rwlock|once|lazy|poison|mpsc|condvar|barrier)|std::thread::local|LocalKey|core::cell::once|OnceLock|LazyLock|once_cell|lazy_static|parking_lot'),
 ('addresses', r'core::fmt::Pointer|::(addr|expose_provenance|as_ptr|as_mut_ptr)$|core::ptr::hash|strong_count|std::alloc::|alloc::alloc::'),
]
BAD = [(n, re.compile(r)) for n, r in BAD]
ITER = re.compile(r'(::|^)(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|into_iter|next|for_each|pop_first)$')
HASH = re.compile(r'(hash::map::|hash::set::|hashbrown|HashMap|HashSet|hash_map|hash_set)')
CRATES = ('rerecast', 'avian_rerecast', 'bevy_rerecast_core')
STATE = re.compile(r'(Atomic|Mutex|RwLock|OnceLock|OnceCell|LazyLock|LazyCell|UnsafeCell|RefCell|Cell<|LocalKey|Lazy<)')
def scope(P):
    for b in user_bodies(P, CRATES, expn=True): yield b
    for b in user_bodies(P, ('bevy_rerecast_editor',), expn=True):
        if '::build' in b['path']: yield b
def run(P, R):
    nb = nc = 0
    for b in scope(P):
        nb += 1
        for i, ci, t in calls(b):
            nc += 1
            for p in {callee(ci), decl(ci)}:
                for what, rx in BAD:
                    if rx.search(p) and not p.startswith(('tracing', 'log::')):
                        R.fail('no ambient input', '%s -> %s' % (short(b['path']), p), '%s calls %s (%s)' % (b['path'], p, what))
                if ITER.search(p):
                    tys = ' '.join(str(x) for x in (ci.get('gargs') or []) + (ci.get('rargs') or []))
                    if HASH.search(p) or (p.endswith(('into_iter', '::next', 'for_each')) and re.match(r'^&?(mut )?\S*(HashMap|HashSet|hash_map|hash_set|hash::map|hash::set)', tys)):
                        R.fail('no iteration in hash order', short(b['path']), '%s iterates a hash table (%s of %s)' % (b['path'], p, tys[:120]))
        for i, s in rvalues(b):
            rv = s[2]
            if rv[0] == 'cast' and ('Expose' in str(rv[1]) or (str(rv[4]).startswith(('*', '&')) and rv[3] in ('usize', 'u64', 'isize', 'i64'))):
                R.fail('no address is turned into a number', short(b['path']), '%s casts a pointer to an integer' % b['path'])
            if rv[0] == 'tls': R.fail('no thread local', short(b['path']), '%s reads a thread local' % b['path'])
    R.ok('functions and call sites inspected', '%d functions, %d call sites' % (nb, nc))
    R.note('functions', nb); R.note('call_sites', nc)
    if nb < 150 or nc < 1500: R.fail('functions and call sites inspected', 'count', 'only %d functions / %d call sites found' % (nb, nc))
    for c, s in P.statics:
        path, ty, mut, tls = s
        if c not in CRATES and not (c == 'bevy_rerecast_editor' and '::build' in path): continue
        if '::_::' in path or ty.startswith(('tracing_core::', 'bevy_reflect::utility::')): continue
        if tls or mut or STATE.search(ty): R.fail('no state survives a build', path, 'static %s: %s keeps state between builds' % (path, ty))
        else: R.ok('no state survives a build', path)
    # the rule must be able to see a violation: the extractor resolves these in the crates that legitimately use them
    import itertools
    seen = False
    for b in user_bodies(P, ('bevy_rerecast_editor_integration', 'bevy_rerecast_editor', 'trenchbroom_scene'), expn=True):
        for i, ci, t in calls(b):
            if any(rx.search(x) for x in (callee(ci), decl(ci)) for _, rx in BAD): seen = True
    R.check(seen, 'positive control: ambient calls outside the scope are recognised', 'editor, integration and scene crates')

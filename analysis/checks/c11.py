"""C11: every loop in a build makes progress"""
from lib import *
import progress as G
EXPLAIN = ('For every loop of the pipeline crate: what its exit conditions depend on (over all edges out of the loop, through inner loops), how each of '
           'these values differs from itself after every way round (all case combinations of all latches), and a proof that in each of them one value '
           'moves, always in the same direction and towards the exit. Stacks and queues: each pass takes an entry, and what is put on was unmarked '
           'and is marked. Lists that grow while they are walked: only by something found in that pass. Rounds: whatever keeps a round going used up '
           'a count or marked an element.')
def run(P, R):
    bs = [b for b in user_bodies(P, {'rerecast'}) if b['kind'] != 'promoted' and not b.get('derived')]
    fns0 = {b['path'] for b in bs if b['kind'] != 'closure'}
    q0 = {b['path']: analyse(P, b['path'], fns0 - {b['path']}) for b in bs}
    loopy = {p for p in fns0 if q0[p].loops}
    R.note('functions', len(bs)); R.note('functions with loops', len(loopy))
    n = 0
    for b in bs:
        path = b['path']
        q = analyse(P, path, loopy - {path})
        if not q.loops: continue
        bad = {}
        for h in sorted(q.loops):
            w = judge(q, h)
            if w: bad[h] = w
            else: R.ok('progress', '%s loop %d' % (short(path), h))
            n += 1
        if bad:
            # what is changed inside other functions: look again with what this function calls opened up
            callees = {ev.a[0] for ev in q.events('call')}
            called = {p for p in loopy if any(p == c or strip_gen(str(c)).split('::')[-1] == strip_gen(p).split('::')[-1] for c in callees)} - {path}
            if called:
                for k in range(3):
                    q2 = analyse(P, path, loopy - {path} - called)
                    w2 = {h: judge(q2, h) for h in q2.loops}
                    w2 = {h: w for h, w in w2.items() if w}
                    if not w2: break
                    more = {p for p in loopy if any(strip_gen(str(ev.a[0])).split('::')[-1] == strip_gen(p).split('::')[-1] for ev in q2.events('call'))} - called - {path}
                    if not more: break
                    called |= more
                if not w2:
                    for h in bad: R.ok('progress', '%s loop %d (with what it calls)' % (short(path), h))
                    bad = {}
        for i, (h, w) in enumerate(sorted(bad.items())):
            R.fail('progress', '%s: %s' % (short(path), w), '%s: in the loop that starts near line %s, %s' % (short(path), line(q, h), w))
    R.note('loops', n)
    R.floor('progress', 200)
def judge(q, h):
    return G.judge(q, h)
def line(q, h):
    ls = [e.org[1] for e in q.events() if e.blk == h and e.org]
    return min(ls) if ls else '?'

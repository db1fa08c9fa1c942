"""Deterministic walk through a small piece of control flow with symbolic values: used where a loop over a constant range must be seen as a whole."""
from lib import *
class Stuck(Exception): pass
def step_env(q, b, s, env):
    new = {}
    for (pb, k) in q.g.phis:
        if pb != s: continue
        ph = mk('phi', s, k, q.g.uid)
        v = q.g.phi_args(ph).get(b)
        if v is None: continue
        new[ph] = nf(subst(v, env)) if env else nf(v)
    e2 = dict(env); e2.update(new)
    return e2
def walk(q, b, env, stop, decide, visit=None, limit=400):
    """follow control flow from block b until a block of `stop` is about to be entered; decide(atom) -> bool for atoms not settled by env"""
    n = 0
    while True:
        n += 1
        if n > limit: raise Stuck('no end')
        if visit: visit(b, env)
        if q.f.blocks[b].term[0] in ('ret', 'unreach', 'panic'): return b, None, env
        nx = None; ss = [s for s in q.g.succ[b] if q.live[s]]
        if len(ss) == 1: nx = ss[0]
        else:
            for s in ss:
                F = q.edge(b, s)
                if env: F = q.fsubst(F, env)
                if isinstance(F, bool): val = F
                else:
                    m = {}
                    for a in fatoms(F):
                        v = decide(a)
                        if v is None: raise Stuck('a condition on %s' % shown(a, 5) if isinstance(a, N) else str(a))
                        m[a] = v
                    val = B.restrict(F, m)
                if val is True: nx = s; break
        if nx is None: raise Stuck('no way on from a branch')
        if nx in stop: return b, nx, env
        env = step_env(q, b, nx, env); b = nx

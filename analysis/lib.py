"""Shared pieces of the checks."""
import re
import vg as V, q as Qm, flat as FL
from facts import *
from q import *

def user_bodies(P, crates=None, expn=False):
    for b in P.all:
        c = b['crate']
        if c == 'models': continue
        if crates and c not in crates: continue
        if '::_::' in b['path'] or b.get('derived'): continue
        if b.get('expn') and not expn: continue
        yield b

def calls(b):
    """(block index, callee info, raw args, terminator) of every call in a body"""
    for i, bl in enumerate(b['blocks']):
        if not bl: continue
        t = bl['t']
        if t[0] in ('call', 'tailcall'):
            ci = next((x for x in t[1:] if isinstance(x, dict) and ('decl' in x or 'fn' in x)), None)
            yield i, ci, t
def rvalues(b):
    for i, bl in enumerate(b['blocks']):
        if not bl: continue
        for s in bl['s']:
            if s[0] == '=': yield i, s

def short(path):
    """name of a function without its crate-internal location (stable under moving code)"""
    p = path.split('::{closure')[0]
    return re.sub(r'<impl [^>]*?([A-Za-z0-9_]+)(<[^>]*>)?>', r'\1', p)

def find(P, name, self_ty=None, crate=None, trait=None):
    """function by its public name (and Self type), wherever it is defined"""
    c = []
    for b in P.all:
        if b['kind'] not in ('fn', 'assocfn') or b['crate'] == 'models': continue
        if b.get('name') != name: continue
        if crate and b['crate'] != crate: continue
        if self_ty is not None:
            s = strip_gen(b.get('impl_self') or '').split('::')[-1]
            if s != self_ty: continue
        if trait is not None and strip_gen(b.get('impl_trait') or '').split('::')[-1] != trait: continue
        c.append(b['path'])
    return c
def find1(P, R, name, self_ty=None, crate=None, trait=None):
    c = find(P, name, self_ty, crate, trait)
    if not c:
        R.fail('anchor', (self_ty + '::' if self_ty else '') + name, 'the function %s this property is about no longer exists' % name)
        return None
    return c[0]
def callee(ci):
    return strip_gen(ci.get('fn') or ci.get('decl') or '') if ci else ''
def decl(ci):
    return strip_gen(ci.get('decl') or ci.get('fn') or '') if ci else ''

"""Pretty printer for extracted MIR facts (debug aid)."""
import json,sys,glob,os
def place(b,p):
    loc=p[0]; nm=(b['locals'][loc]+[None])[1]
    s='_%d'%loc+('{%s}'%nm if nm else '')
    for e in p[1:]:
        if e=='*': s='*'+s
        elif isinstance(e,str): s+='!'+e
        elif e[0]=='f': s+='.'+str(e[2]).split('@')[0]
        elif e[0]=='i': s+='[_%d]'%e[1]
        elif e[0]=='d': s+=' as '+str(e[2])
        else: s+=str(e)
    return s
def op(b,o):
    if 'c' in o: return place(b,o['c'])
    if 'm' in o: return 'mv '+place(b,o['m'])
    k=o['k']
    if 'fn' in k: return 'fn:'+str(k['fn'])
    if 'v' in k: return '#'+json.dumps(k['v'])+':'+str(k.get('ty'))
    return '#'+json.dumps(k)
def rv(b,r):
    t=r[0]
    if t=='use': return op(b,r[1])
    if t=='ref': return '&'+str(r[1])+' '+place(b,r[2])
    if t=='cast': return '%s as[%s] %s (from %s)'%(op(b,r[2]),r[1],r[3],r[4])
    if t=='bin': return '%s(%s, %s) :%s'%(r[1],op(b,r[2]),op(b,r[3]),r[4])
    if t=='un': return '%s(%s)'%(r[1],op(b,r[2]))
    if t=='discr': return 'discr(%s)'%place(b,r[1])
    if t=='agg': return 'agg %s %s %s (%s)'%(r[1],r[2],r[3],', '.join(op(b,x) for x in r[5]))
    return json.dumps(r)
def term(b,t):
    k=t[0]
    if k=='call':
        f=t[1]; 
        name=f.get('fn') or f.get('decl') or json.dumps(f)
        return '%s = CALL %s <%s> (%s) -> %s  L%s'%(place(b,t[3]),name,f.get('rargs') if f.get('resolved') else f.get('gargs'),', '.join(op(b,x) for x in t[2]),t[4],t[5])
    if k=='switch': return 'switch %s %s else %s'%(op(b,t[1]),t[2],t[3])
    return json.dumps(t)
def show(b):
    print('==',b['path'],b['kind'],b['file'],b['line'],'argc',b['argc'],'gen',b.get('generics'))
    for i,l in enumerate(b['locals']):
        print('  let _%d: %s %s'%(i,l[0],(l+[None])[1] or ''))
    for i,bl in enumerate(b['blocks']):
        if bl is None: continue
        print(' bb%d:'%i)
        for s in bl['s']:
            if s[0]=='=': print('    %s = %s'%(place(b,s[1]),rv(b,s[2])))
            else: print('   ',s)
        print('    ',term(b,bl['t']))
if __name__=='__main__':
    d=os.environ.get('FACTS','/tmp/facts')
    for f in glob.glob(d+'/*.json'):
        for b in json.load(open(f))['bodies']:
            if any(a in b['path'] for a in sys.argv[1:]): show(b)

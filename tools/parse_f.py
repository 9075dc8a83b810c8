import re,glob,os
def lines_of(path):
    out=[]
    for ln in open(path):
        ln=ln.rstrip('\n')
        if not ln.strip(): continue
        if ln[0] in 'cC*!': continue
        if '!' in ln and "'" not in ln: ln=ln[:ln.index('!')]
        if len(ln)>5 and ln[:5]=='     ' and ln[5]!=' ' and ln[5]!='0':
            out[-1]+=' '+ln[6:].strip()
        else: out.append(ln.strip())
    return out
def split(s):
    r=[];d=0;c=''
    for ch in s:
        if ch=='(':d+=1
        if ch==')':d-=1
        if ch==',' and d==0: r.append(c.strip());c=''
        else: c+=ch
    if c.strip(): r.append(c.strip())
    return r
def parse(path):
    subs=[];cur=None
    for ln in lines_of(path):
        l=ln.lower()
        m=re.match(r'(recursive\s+)?subroutine\s+(\w+)\s*\((.*)\)\s*$',l)
        if m:
            cur=dict(name=m.group(2),args=[a.strip() for a in m.group(3).split(',')],decl={},file=os.path.basename(path),rec=bool(m.group(1)))
            subs.append(cur);continue
        if cur is None: continue
        m=re.match(r'(integer|double precision|real|logical|character)\s+(.*)$',l)
        if m and '=' not in l:
            for d in split(m.group(2)):
                mm=re.match(r'(\w+)\s*(?:\((.*)\))?$',d)
                if not mm: continue
                dims=None
                if mm.group(2) is not None:
                    dims=[]
                    for x in split(mm.group(2)):
                        lo,hi=(x.split(':') if ':' in x else ('1',x))
                        dims.append((lo.strip(),hi.strip()))
                cur['decl'][mm.group(1)]=(m.group(1),dims)
    return subs
if __name__=='__main__':
    import sys
    for f in sorted(glob.glob('/verif/ref/*.f')):
        for s in parse(f):
            print(s['file'],s['name'],'' if s['rec'] else 'NONREC')
            miss=[a for a in s['args'] if a not in s['decl']]
            if miss: print('   MISSING',miss)
            print('    ',' '.join(a+('' if s['decl'].get(a,(0,None))[1] is None else '['+';'.join(f'{x}:{y}' for x,y in s['decl'][a][1])+']') for a in s['args']))

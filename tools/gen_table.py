#!/usr/bin/env python3
"""One-off generator (development time): reads the frozen reference Fortran in
/verif/ref and the pairing with the device kernels, and writes
/verif/sim/kernels_gen.inc (kernel table: argument roles, array shapes) and
/verif/sut/thrust_table.inc.  Its outputs are committed; checks never run it."""
import re,glob,os,sys
sys.path.insert(0,os.path.dirname(__file__))
from parse_f import parse, lines_of
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
# Fortran name -> (class, method)
def thrust_name(n):
    m=re.match(r'(.*?)(\d)d$',n)
    if not m: return None
    b,d=m.group(1),m.group(2)
    T={}
    for k,v in dict(celldiffusionv1res='diffusion_v1_res',celldiffusionv2res='diffusion_v2_res',cellpoissonv1res='poisson_v1_res',
        celldiffusionv1apply='diffusion_v1_apply',celldiffusionv2apply='diffusion_v2_apply',cellpoissonv2apply='poisson_v2_apply').items(): T[k]=('cd_apply_%sd_cuda',v)
    for k,v in dict(celldiffusionflux='flux',cellpoissonflux='poisson_flux').items(): T[k]=('cdf_%sd_cuda',v)
    for k,v in dict(celldiffusionoffdiag='offdiag',cellpoissonoffdiag='poisson_offdiag',celldiffusionv1diag='v1diag',celldiffusionv2diag='v2diag',cellpoissondiag='poisson_diag',
        adjcelldiffusiondiag='adj_diag',adjcellpoissondiag='adj_poisson_diag',adjcelldiffusioncfdiag='adj_cf_diag',adjcellpoissoncfdiag='adj_poisson_cf_diag',
        adjcelldiffusionoffdiag='adj_offdiag',adjcellpoissonoffdiag='adj_poisson_offdiag',adjcelldiffusioncfoffdiag='adj_cf_offdiag',readjcelldiffusionoffdiag='readj_offdiag',
        adjcelldiffusioncfbdryrhs='adj_cf_bdryrhs').items(): T[k]=('cd_stencil_%sd_cuda',v)
    for k,v in dict(cellsetcorrectionbc='set_bc',cellsetpoissoncorrectionbc='set_poisson_bc').items(): T[k]=('cd_correct_bc_%sd_cuda',v)
    if d=='2':
        T['cellsetinteriorcornerbc']=('cd_correct_bc_%sd_cuda','set_corner_bc')
        T['cellsethomogenousbc']=('cd_correct_bc_%sd_cuda','set_homogenous_bc')
    T['copycoarsetofine']=('coarse_to_fine','copy'); T['copycoarsetofinecorner']=('coarse_to_fine','copy_corner')
    if b not in T: return None
    c,mth=T[b]
    return (c%d if '%' in c else c, mth)
def role(n):
    for pat,rep in [(r'ifirst(\d)',r'lo\1'),(r'ilast(\d)',r'hi\1'),(r'[pc]first(\d)',r'plo\1'),(r'[pc]last(\d)',r'phi\1'),
                    (r'direction','dir'),(r'bdrytype','btype'),(r'extraporder','order'),(r'interporder','iorder'),
                    (r'(bdry)?seglo','seglo'),(r'(bdry)?seghi','seghi'),(r'dirfactor|dir_factor','dirfactor'),(r'neufactor','neufactor')]:
        m=re.fullmatch(pat,n)
        if m: return m.expand(rep)
    return n
SKIP={'apply'}
subs=[]
for f in sorted(glob.glob(V+'/ref/*.f')):
    txt='\n'.join(lines_of(f)).lower()
    ss=parse(f)
    bodies=re.split(r'(?m)^(?:recursive\s+)?subroutine\s+',txt)[1:]
    for s,b in zip(ss,bodies):
        s['body']=b
        subs.append(s)
dup={}
for s in subs: dup.setdefault(s['name'],[]).append(s['file'])
for k,v in dup.items():
    if len(v)>1: print('dup',k,v)
o=open(V+'/sim/kernels_gen.inc','w'); t=open(V+'/sut/thrust_table.inc','w'); ft=open(V+'/sut/fortran_table.inc','w'); rt=open(V+'/sim/ref_table.inc','w')
o.write('// generated by tools/gen_table.py from ref/*.f; committed, not rebuilt by checks\n')
nk=0; tab=[]
for s in subs:
    if s['name'] in SKIP: continue
    args=s['args']; idx={a:i for i,a in enumerate(args)}
    def ex(e): return re.sub(r'[a-z]\w*',lambda m:'v[%d]'%idx[m.group(0)],e)
    al=[];dl=[]
    for i,a in enumerate(args):
        ty,dims=s['decl'][a]
        k='i' if ty=='integer' else 'd'
        if dims is not None: k=k.upper()
        out=0
        if dims is not None and re.search(r'(?m)(^|\s|\))%s\s*\([^=\n]*\)\s*=[^=]'%re.escape(a),s['body']): out=1
        al.append('{"%s",\'%s\',%d,%d}'%(role(a),k,len(dims) if dims else 0,out))
        if dims: dl.append('case %d:'%i+''.join('o[%d][0]=%s;o[%d][1]=%s;'%(d,ex(lo),d,ex(hi)) for d,(lo,hi) in enumerate(dims))+'break;')
    if not any(x.endswith(',1}') for x in al): print('no output?',s['name'])
    o.write('static const ArgD A%d[]={%s};\nstatic void D%d(const long*v,int a,long(*o)[2]){(void)v;switch(a){%s}}\n'%(nk,','.join(al),nk,''.join(dl)))
    tn=thrust_name(s['name'])
    tab.append('{"%s","%s",%d,A%d,D%d,"%s"}'%(s['name'],(tn[0]+'::'+tn[1]) if tn else '',len(args),nk,nk,s['file']))
    ptr=','.join('void*' for _ in args)
    ft.write('extern "C" __attribute__((weak)) void %s_(%s);\n'%(s['name'],ptr)); rt.write('extern "C" __attribute__((weak)) void ref_%s_(%s);\n'%(s['name'],ptr))
    s['nk']=nk; s['tn']=tn; nk+=1
o.write('static const KernelD KERNELS[]={\n'+',\n'.join(tab)+'};\n')
for fh,pre in((ft,''),(rt,'ref_')):
    fh.write('static void (*const %sFUNCS[])()={\n'%('FORTRAN_' if not pre else 'REF_'))
    fh.write(',\n'.join('(void(*)())&%s%s_'%(pre,s['name']) for s in subs if 'nk' in s)+'};\n')
for s in subs:
    if s.get('tn'): t.write('KERNEL(%d,%s,%s)\n'%(s['nk'],s['tn'][0],s['tn'][1]))
print(nk,'kernels',sum(1 for s in subs if s.get('tn')),'with thrust')

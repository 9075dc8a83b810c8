// generated by tools/gen_h9.py: the point sequences of the iterators as plain loops
extern "C" void sim_register_harness(const char*, int, int, void (*)(void**));
namespace {
struct Q { void** A; int N; long n[4], l[4], t[4], c[4], s[4]; double *a, *o, *er; int* of; long m, fi, x;
  Q(void** V, int N) : A(V), N(N) { auto g = [&](int k) { return (long)*(int*)V[k]; }; long st = 1; for (int q = N - 1; q >= 0; q--) { n[q] = g(q); l[q] = g(4 + q); t[q] = g(12 + q); c[q] = (g(8 + q) - l[q]) / t[q] + 1; s[q] = st; st *= n[q]; } m = g(18); fi = g(19); x = g(20); a = (double*)V[21]; of = (int*)V[22]; o = (double*)V[23]; er = (double*)V[24]; er[0] = 0; }
  // visit the points of the box with the dimensions nested as listed (slowest first); dimension red has one point less
  template <class F> void walk(const char* ord, int k, int red, F f) { int p[4]; for (int q = 0; q < k; q++) p[q] = ord[q] - '0'; long i[4] = {0, 0, 0, 0}, num = 1; for (int q = 0; q < k; q++) num *= c[p[q]] - (p[q] == red);
    for (long v = 0; v < num; v++) { long off = 0; for (int q = 0; q < N; q++) off += (l[q] + t[q] * i[q]) * s[q]; f(v, off); for (int q = k - 1; q >= 0; q--) { if (++i[p[q]] < c[p[q]] - (p[q] == red)) break; i[p[q]] = 0; } } } };
long fdiv(long a, long b) { long q = a / b; return a % b != 0 && (a < 0) != (b < 0) ? q - 1 : q; }

void r_sub1(void**V){Q q(V,1);q.walk("0",1,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_sub2(void**V){Q q(V,2);q.walk("01",2,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_sub3(void**V){Q q(V,3);q.walk("012",3,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_sub4(void**V){Q q(V,4);q.walk("0123",4,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_subw1(void**V){Q q(V,1);q.walk("0",1,-1,[&](long v,long off){q.o[off]=q.a[v];});}
void r_subw2(void**V){Q q(V,2);q.walk("01",2,-1,[&](long v,long off){q.o[off]=q.a[v];});}
void r_subw3(void**V){Q q(V,3);q.walk("012",3,-1,[&](long v,long off){q.o[off]=q.a[v];});}
void r_subw4(void**V){Q q(V,4);q.walk("0123",4,-1,[&](long v,long off){q.o[off]=q.a[v];});}
void r_tr01(void**V){Q q(V,2);q.walk("01",2,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_tr10(void**V){Q q(V,2);q.walk("10",2,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_tr012(void**V){Q q(V,3);q.walk("012",3,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_tr021(void**V){Q q(V,3);q.walk("021",3,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_tr102(void**V){Q q(V,3);q.walk("102",3,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_tr120(void**V){Q q(V,3);q.walk("120",3,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_tr201(void**V){Q q(V,3);q.walk("201",3,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_tr210(void**V){Q q(V,3);q.walk("210",3,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_tr0123(void**V){Q q(V,4);q.walk("0123",4,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_tr3210(void**V){Q q(V,4);q.walk("3210",4,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_tr1302(void**V){Q q(V,4);q.walk("1302",4,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_tr2031(void**V){Q q(V,4);q.walk("2031",4,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_tr0213(void**V){Q q(V,4);q.walk("0213",4,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_tr3012(void**V){Q q(V,4);q.walk("3012",4,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_trw10(void**V){Q q(V,2);q.walk("10",2,-1,[&](long v,long off){q.o[off]=q.a[v];});}
void r_trw201(void**V){Q q(V,3);q.walk("201",3,-1,[&](long v,long off){q.o[off]=q.a[v];});}
void r_trw120(void**V){Q q(V,3);q.walk("120",3,-1,[&](long v,long off){q.o[off]=q.a[v];});}
void r_trw3120(void**V){Q q(V,4);q.walk("3120",4,-1,[&](long v,long off){q.o[off]=q.a[v];});}
void r_sts10(void**V){Q q(V,1);q.walk("0",1,0,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[0]*q.s[0]];});}
void r_std10(void**V){Q q(V,1);q.walk("0",1,0,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[0]*q.s[0]];});}
void r_fs10(void**V){Q q(V,1);q.walk("0",1,0,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[0]*q.s[0]];});}
void r_sts20(void**V){Q q(V,2);q.walk("01",2,0,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[0]*q.s[0]];});}
void r_std20(void**V){Q q(V,2);q.walk("01",2,0,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[0]*q.s[0]];});}
void r_fs20(void**V){Q q(V,2);q.walk("01",2,0,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[0]*q.s[0]];});}
void r_sts21(void**V){Q q(V,2);q.walk("01",2,1,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[1]*q.s[1]];});}
void r_std21(void**V){Q q(V,2);q.walk("01",2,1,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[1]*q.s[1]];});}
void r_fs21(void**V){Q q(V,2);q.walk("01",2,1,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[1]*q.s[1]];});}
void r_sts30(void**V){Q q(V,3);q.walk("012",3,0,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[0]*q.s[0]];});}
void r_std30(void**V){Q q(V,3);q.walk("012",3,0,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[0]*q.s[0]];});}
void r_fs30(void**V){Q q(V,3);q.walk("012",3,0,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[0]*q.s[0]];});}
void r_sts31(void**V){Q q(V,3);q.walk("012",3,1,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[1]*q.s[1]];});}
void r_std31(void**V){Q q(V,3);q.walk("012",3,1,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[1]*q.s[1]];});}
void r_fs31(void**V){Q q(V,3);q.walk("012",3,1,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[1]*q.s[1]];});}
void r_sts32(void**V){Q q(V,3);q.walk("012",3,2,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[2]*q.s[2]];});}
void r_std32(void**V){Q q(V,3);q.walk("012",3,2,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[2]*q.s[2]];});}
void r_fs32(void**V){Q q(V,3);q.walk("012",3,2,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[2]*q.s[2]];});}
void r_sts40(void**V){Q q(V,4);q.walk("0123",4,0,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[0]*q.s[0]];});}
void r_std40(void**V){Q q(V,4);q.walk("0123",4,0,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[0]*q.s[0]];});}
void r_sts41(void**V){Q q(V,4);q.walk("0123",4,1,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[1]*q.s[1]];});}
void r_std41(void**V){Q q(V,4);q.walk("0123",4,1,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[1]*q.s[1]];});}
void r_sts42(void**V){Q q(V,4);q.walk("0123",4,2,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[2]*q.s[2]];});}
void r_std42(void**V){Q q(V,4);q.walk("0123",4,2,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[2]*q.s[2]];});}
void r_sts43(void**V){Q q(V,4);q.walk("0123",4,3,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[3]*q.s[3]];});}
void r_std43(void**V){Q q(V,4);q.walk("0123",4,3,[&](long v,long off){q.o[2*v]=q.a[off];q.o[2*v+1]=q.a[off+q.t[3]*q.s[3]];});}
void r_cf10(void**V){Q q(V,1);long base=0;for(int d=0;d<1;d++)base+=q.l[d]*q.s[d];for(long p=0;p<q.x;p++)q.o[p]=q.a[base+(fdiv(q.fi+p,q.m)-fdiv(q.fi,q.m))*q.s[0]];}
void r_off1(void**V){Q q(V,1);long base=0;for(int d=0;d<1;d++)base+=q.l[d]*q.s[d];for(long p=0;p<q.x;p++){long of=0;for(int d=0;d<1;d++)of+=q.s[d]*q.of[p*1+d];q.o[p]=q.a[base+of];}}
void r_cf20(void**V){Q q(V,2);long base=0;for(int d=0;d<2;d++)base+=q.l[d]*q.s[d];for(long p=0;p<q.x;p++)q.o[p]=q.a[base+(fdiv(q.fi+p,q.m)-fdiv(q.fi,q.m))*q.s[0]];}
void r_cf21(void**V){Q q(V,2);long base=0;for(int d=0;d<2;d++)base+=q.l[d]*q.s[d];for(long p=0;p<q.x;p++)q.o[p]=q.a[base+(fdiv(q.fi+p,q.m)-fdiv(q.fi,q.m))*q.s[1]];}
void r_off2(void**V){Q q(V,2);long base=0;for(int d=0;d<2;d++)base+=q.l[d]*q.s[d];for(long p=0;p<q.x;p++){long of=0;for(int d=0;d<2;d++)of+=q.s[d]*q.of[p*2+d];q.o[p]=q.a[base+of];}}
void r_cf30(void**V){Q q(V,3);long base=0;for(int d=0;d<3;d++)base+=q.l[d]*q.s[d];for(long p=0;p<q.x;p++)q.o[p]=q.a[base+(fdiv(q.fi+p,q.m)-fdiv(q.fi,q.m))*q.s[0]];}
void r_cf31(void**V){Q q(V,3);long base=0;for(int d=0;d<3;d++)base+=q.l[d]*q.s[d];for(long p=0;p<q.x;p++)q.o[p]=q.a[base+(fdiv(q.fi+p,q.m)-fdiv(q.fi,q.m))*q.s[1]];}
void r_cf32(void**V){Q q(V,3);long base=0;for(int d=0;d<3;d++)base+=q.l[d]*q.s[d];for(long p=0;p<q.x;p++)q.o[p]=q.a[base+(fdiv(q.fi+p,q.m)-fdiv(q.fi,q.m))*q.s[2]];}
void r_off3(void**V){Q q(V,3);long base=0;for(int d=0;d<3;d++)base+=q.l[d]*q.s[d];for(long p=0;p<q.x;p++){long of=0;for(int d=0;d<3;d++)of+=q.s[d]*q.of[p*3+d];q.o[p]=q.a[base+of];}}
void r_sp20(void**V){Q q(V,2);q.walk("01",2,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_sp21(void**V){Q q(V,2);q.walk("10",2,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_sp30(void**V){Q q(V,3);q.walk("012",3,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_sp31(void**V){Q q(V,3);q.walk("021",3,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_sp32(void**V){Q q(V,3);q.walk("102",3,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_sp33(void**V){Q q(V,3);q.walk("120",3,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_sp34(void**V){Q q(V,3);q.walk("201",3,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_sp35(void**V){Q q(V,3);q.walk("210",3,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_win0(void**V){Q q(V,2);q.l[1]=q.m;q.t[1]=1;q.c[1]=1;q.walk("0",1,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_win1(void**V){Q q(V,3);q.l[2]=q.m;q.t[2]=1;q.c[2]=1;q.walk("01",2,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_win2(void**V){Q q(V,3);q.l[2]=q.m;q.t[2]=1;q.c[2]=1;q.walk("10",2,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_win3(void**V){Q q(V,4);q.l[3]=q.m;q.t[3]=1;q.c[3]=1;q.walk("012",3,-1,[&](long v,long off){q.o[v]=q.a[off];});}
void r_win4(void**V){Q q(V,4);q.l[3]=q.m;q.t[3]=1;q.c[3]=1;q.walk("201",3,-1,[&](long v,long off){q.o[v]=q.a[off];});}
struct Reg{Reg(){
  sim_register_harness("it_sub1", 0, 1, r_sub1);
  sim_register_harness("it_sub2", 0, 1, r_sub2);
  sim_register_harness("it_sub3", 0, 1, r_sub3);
  sim_register_harness("it_sub4", 0, 1, r_sub4);
  sim_register_harness("it_subw1", 0, 1, r_subw1);
  sim_register_harness("it_subw2", 0, 1, r_subw2);
  sim_register_harness("it_subw3", 0, 1, r_subw3);
  sim_register_harness("it_subw4", 0, 1, r_subw4);
  sim_register_harness("it_tr01", 0, 1, r_tr01);
  sim_register_harness("it_tr10", 0, 1, r_tr10);
  sim_register_harness("it_tr012", 0, 1, r_tr012);
  sim_register_harness("it_tr021", 0, 1, r_tr021);
  sim_register_harness("it_tr102", 0, 1, r_tr102);
  sim_register_harness("it_tr120", 0, 1, r_tr120);
  sim_register_harness("it_tr201", 0, 1, r_tr201);
  sim_register_harness("it_tr210", 0, 1, r_tr210);
  sim_register_harness("it_tr0123", 0, 1, r_tr0123);
  sim_register_harness("it_tr3210", 0, 1, r_tr3210);
  sim_register_harness("it_tr1302", 0, 1, r_tr1302);
  sim_register_harness("it_tr2031", 0, 1, r_tr2031);
  sim_register_harness("it_tr0213", 0, 1, r_tr0213);
  sim_register_harness("it_tr3012", 0, 1, r_tr3012);
  sim_register_harness("it_trw10", 0, 1, r_trw10);
  sim_register_harness("it_trw201", 0, 1, r_trw201);
  sim_register_harness("it_trw120", 0, 1, r_trw120);
  sim_register_harness("it_trw3120", 0, 1, r_trw3120);
  sim_register_harness("it_sts10", 0, 1, r_sts10);
  sim_register_harness("it_std10", 0, 1, r_std10);
  sim_register_harness("it_fs10", 0, 1, r_fs10);
  sim_register_harness("it_sts20", 0, 1, r_sts20);
  sim_register_harness("it_std20", 0, 1, r_std20);
  sim_register_harness("it_fs20", 0, 1, r_fs20);
  sim_register_harness("it_sts21", 0, 1, r_sts21);
  sim_register_harness("it_std21", 0, 1, r_std21);
  sim_register_harness("it_fs21", 0, 1, r_fs21);
  sim_register_harness("it_sts30", 0, 1, r_sts30);
  sim_register_harness("it_std30", 0, 1, r_std30);
  sim_register_harness("it_fs30", 0, 1, r_fs30);
  sim_register_harness("it_sts31", 0, 1, r_sts31);
  sim_register_harness("it_std31", 0, 1, r_std31);
  sim_register_harness("it_fs31", 0, 1, r_fs31);
  sim_register_harness("it_sts32", 0, 1, r_sts32);
  sim_register_harness("it_std32", 0, 1, r_std32);
  sim_register_harness("it_fs32", 0, 1, r_fs32);
  sim_register_harness("it_sts40", 0, 1, r_sts40);
  sim_register_harness("it_std40", 0, 1, r_std40);
  sim_register_harness("it_sts41", 0, 1, r_sts41);
  sim_register_harness("it_std41", 0, 1, r_std41);
  sim_register_harness("it_sts42", 0, 1, r_sts42);
  sim_register_harness("it_std42", 0, 1, r_std42);
  sim_register_harness("it_sts43", 0, 1, r_sts43);
  sim_register_harness("it_std43", 0, 1, r_std43);
  sim_register_harness("it_cf10", 0, 1, r_cf10);
  sim_register_harness("it_off1", 0, 1, r_off1);
  sim_register_harness("it_cf20", 0, 1, r_cf20);
  sim_register_harness("it_cf21", 0, 1, r_cf21);
  sim_register_harness("it_off2", 0, 1, r_off2);
  sim_register_harness("it_cf30", 0, 1, r_cf30);
  sim_register_harness("it_cf31", 0, 1, r_cf31);
  sim_register_harness("it_cf32", 0, 1, r_cf32);
  sim_register_harness("it_off3", 0, 1, r_off3);
  sim_register_harness("it_sp20", 0, 1, r_sp20);
  sim_register_harness("it_sp21", 0, 1, r_sp21);
  sim_register_harness("it_sp30", 0, 1, r_sp30);
  sim_register_harness("it_sp31", 0, 1, r_sp31);
  sim_register_harness("it_sp32", 0, 1, r_sp32);
  sim_register_harness("it_sp33", 0, 1, r_sp33);
  sim_register_harness("it_sp34", 0, 1, r_sp34);
  sim_register_harness("it_sp35", 0, 1, r_sp35);
  sim_register_harness("it_win0", 0, 1, r_win0);
  sim_register_harness("it_win1", 0, 1, r_win1);
  sim_register_harness("it_win2", 0, 1, r_win2);
  sim_register_harness("it_win3", 0, 1, r_win3);
  sim_register_harness("it_win4", 0, 1, r_win4);
}} reg;
}

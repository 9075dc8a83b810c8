// generated by tools/gen_h.py: the expression programs as plain loops
extern "C" void sim_register_harness(const char*, int, int, void (*)(void**));
namespace {
static void r_e08_00(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1){const double val=((3.0-(U(n2,0,0)+V(-1,0,0)))+((C(n1,0,0)-((C(0,0,0)-C(-1,0,0))/h0))-(V(0,0,0)+((U(0,0,0)-U(-1,0,0))/h0))));R(0,0,0)=val;}
  }
static void r_e08_01(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1){const double val=(1.5+(V(n2,0,0)*((V(0,0,0)-V(-1,0,0))/h0)));R(0,0,0)=val;}
  }
static void r_e08_02(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1){const double val=(3.0/(C(0,0,0)+2.0));R(0,0,0)=val;}
  }
static void r_e08_03(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1){const double val=(((V(1,0,0)-V(0,0,0))/h0)+(-1.0));R(0,0,0)=val;}
  }
static void r_e08_04(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0-gr;x<=hi0+gr;x+=1){const double val=((((U(0,0,0)-U(-1,0,0))/h0)+C(n1,0,0))*(3.0+C(0,0,0)));R(0,0,0)=val;}
  }
static void r_e08_05(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0-gr;x<=hi0+gr;x+=1){const double val=((((V(1,0,0)-V(0,0,0))/h0)-V(n2,0,0))*(((U(1,0,0)-U(0,0,0))/h0)-V(-1,0,0)));R(0,0,0)=val;}
  }
static void r_e08_06(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=s0){const double val=((C(0,0,0)/(3.0*C(0,0,0)))*2.0);R(0,0,0)=val;}
  }
static void r_e08_07(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=s0){const double val=(U(-1,0,0)*C(n1,0,0));R(0,0,0)=val;}
  }
static void r_e08_08(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=s0){const double val=(U(0,0,0)-(C(0,0,0)+C(1,0,0)));R(0,0,0)=val;}
  }
static void r_e08_09(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1){const double val=(2.0/(C(0,0,0)+2.0));R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1){const double val=(U(0,0,0)+U(0,0,0));Q(0,0,0)=val;}
  }
static void r_e08_10(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=s0){const double val=(R(0,0,0)*0.5+(U(0,0,0)+U(0,0,0)));R(0,0,0)=val;}
  }
static void r_e08_11(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=s0){const double val=a;R(0,0,0)=val;}
  }
static void r_e08_12(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=(3.0-(((V(0,0,0)-V(-1,0,0))/h0)/(-1.0)));R(0,0,0)=val;}
  }
static void r_e08_13(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=((1.5+((U(0,1,0)-U(0,0,0))/h1))+(U(0,0,0)+V(n1,1,0)));R(0,0,0)=val;}
  }
static void r_e08_14(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=(((0.5/(C(0,0,0)+2.0))*(V(0,0,0)*C(n1,0,0)))-2.0);R(0,0,0)=val;}
  }
static void r_e08_15(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=V(1,2,0);R(0,0,0)=val;}
  }
static void r_e08_16(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=(((C(1,0,0)-C(0,0,0))/h0)+a);R(0,0,0)=val;}
  }
static void r_e08_17(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=((V(0,0,0)*2.0)+(((C(0,0,0)-C(0,-1,0))/h1)*((V(0,0,0)-V(0,-1,0))/h1)));R(0,0,0)=val;}
  }
static void r_e08_18(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=(C(0,0,0)+U(n1,0,0));R(0,0,0)=val;}
  }
static void r_e08_19(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0-gr;x<=hi0+gr;x+=1)for(y=lo1-gr;y<=hi1+gr;y+=1){const double val=U(0,0,0);R(0,0,0)=val;}
  }
static void r_e08_20(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0-gr;x<=hi0+gr;x+=1)for(y=lo1-gr;y<=hi1+gr;y+=1){const double val=V(1,0,0);R(0,0,0)=val;}
  }
static void r_e08_21(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1){const double val=(3.0*V(0,0,0));R(0,0,0)=val;}
  }
static void r_e08_22(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1){const double val=(V(0,0,0)-(V(0,0,0)+V(0,1,0)));R(0,0,0)=val;}
  }
static void r_e08_23(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1){const double val=(3.0/(C(0,0,0)+2.0));R(0,0,0)=val;}
  }
static void r_e08_24(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=(b/(C(0,0,0)+2.0));R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=(((V(0,1,0)-V(0,0,0))/h1)+U(2,0,0));Q(0,0,0)=val;}
  }
static void r_e08_25(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=(R(0,0,0)*0.5+(a*U(2,0,0)));R(0,0,0)=val;}
  }
static void r_e08_26(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=2.0;R(0,0,0)=val;}
  }
static void r_e08_27(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=((U(0,1,0)-U(0,0,0))/h1);R(0,0,0)=val;}
  }
static void r_e08_28(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(V(2,0,0)*(-1.0));R(0,0,0)=val;}
  }
static void r_e08_29(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(((V(0,-1,2)/(3.0*C(0,0,0)))/(3.0*C(0,0,0)))*((C(n1,0,2)/(3.0*C(0,0,0)))+0.5));R(0,0,0)=val;}
  }
static void r_e08_30(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(0.5/(C(0,0,0)+2.0));R(0,0,0)=val;}
  }
static void r_e08_31(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(((C(0,2,0)-((V(1,0,0)-V(0,0,0))/h0))-U(0,0,0))/(3.0*C(0,0,0)));R(0,0,0)=val;}
  }
static void r_e08_32(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=((V(1,0,0)*b)/(3.0*C(0,0,0)));R(0,0,0)=val;}
  }
static void r_e08_33(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(a+V(n1,0,1));R(0,0,0)=val;}
  }
static void r_e08_34(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0-gr;x<=hi0+gr;x+=1)for(y=lo1-gr;y<=hi1+gr;y+=1)for(z=lo2-gr;z<=hi2+gr;z+=1){const double val=(((U(0,0,0)-U(-1,0,0))/h0)+U(0,0,0));R(0,0,0)=val;}
  }
static void r_e08_35(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0-gr;x<=hi0+gr;x+=1)for(y=lo1-gr;y<=hi1+gr;y+=1)for(z=lo2-gr;z<=hi2+gr;z+=1){const double val=((2.0+V(0,0,0))-(b*V(0,-1,0)));R(0,0,0)=val;}
  }
static void r_e08_36(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1)for(z=lo2;z<=hi2;z+=s2){const double val=((a-V(0,0,0))+(0.5*V(0,-1,0)));R(0,0,0)=val;}
  }
static void r_e08_37(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1)for(z=lo2;z<=hi2;z+=s2){const double val=C(0,0,0);R(0,0,0)=val;}
  }
static void r_e08_38(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1)for(z=lo2;z<=hi2;z+=s2){const double val=V(0,0,0);R(0,0,0)=val;}
  }
static void r_e08_39(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=((-1.0)+U(-1,0,-1));R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=V(0,0,n1);Q(0,0,0)=val;}
  }
static void r_e08_40(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1)for(z=lo2;z<=hi2;z+=s2){const double val=(R(0,0,0)*0.5+(U(0,-2,0)/(3.0*C(0,0,0))));R(0,0,0)=val;}
  }
static void r_e08_41(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1)for(z=lo2;z<=hi2;z+=s2){const double val=b;R(0,0,0)=val;}
  }
static void r_e08_42(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(y=lo1;y<=hi1;y+=1){const double val=((a/(C(0,0,0)+2.0))-a);R(0,0,0)=val;}
  }
static void r_e08_43(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi2+gv-(lo2-gv)+1+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(z=lo2-gr;z<=hi2+gr;z+=1){const double val=(U(0,0,1)*b);R(0,0,0)=val;}
  }
static void r_e08_44(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=(((((U(0,0,0)-U(0,0,-1))/h2)+U(1,0,n2))*(0.5+V(-1,0,0)))-1.5);R(0,0,0)=val;}
  }
static void r_e08_45(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(y=lo1;y<=hi1;y+=s1)for(z=lo2;z<=hi2;z+=s2){const double val=((V(0,0,0)-V(0,0,0))+(C(0,0,0)*U(0,0,0)));R(0,0,0)=val;}
  }
static void r_e08_46(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=((U(1,0,1)+((C(0,0,0)-C(0,0,-1))/h2))+(U(2,0,0)+3.0));R(0,0,0)=val;}
  }
static void r_e08_47(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=V(0,0,0);R(0,0,0)=val;}
  }
static void r_e08_48(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1){const double val=(b+U(0,0,0));R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1){const double val=(-1.0)*R(0,0,0)+(((U(1,0,0)-U(0,0,0))/h0)-U(-2,0,0));Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1){const double val=b*Q(0,0,0)+(((U(0,0,0)-U(-1,0,0))/h0)/2.0);R(0,0,0)=val;}
  }
static void r_e08_49(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=s0){const double val=U(0,0,0);R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=s0){const double val=(-1.0)*R(0,0,0)+U(0,0,0);Q(0,0,0)=val;}
  }
static void r_e08_50(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1){const double val=(((C(0,0,0)-C(-1,0,0))/h0)+((V(0,0,0)-V(-1,0,0))/h0));R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1){const double val=b*R(-1,0,0)+(0.5+C(-2,0,0));Q(0,0,0)=val;}
  }
static void r_e08_51(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1){const double val=(2.0/(C(0,0,0)+2.0));R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1){const double val=3.0*R(1,0,0)+(V(2,0,0)+((V(0,0,0)-V(-1,0,0))/h0));Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1){const double val=a*Q(1,0,0)+(3.0-C(0,0,0));R(0,0,0)=val;}
  }
static void r_e08_52(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1){const double val=((3.0/(C(0,0,0)+2.0))+((U(0,0,0)-U(-1,0,0))/h0));R(0,0,0)=val;}
  }
static void r_e08_53(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1){const double val=((((V(0,0,0)/(3.0*C(0,0,0)))+a)+((V(1,0,0)-V(0,0,0))/h0))*(-1.0));R(0,0,0)=val;}
  }
static void r_e08_54(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=(((V(1,0,0)-V(0,0,0))/h0)-((U(0,0,0)-U(0,-1,0))/h1));R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=b*R(0,0,0)+(a/(C(0,0,0)+2.0));Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=3.0*Q(0,0,0)+((-1.0)/(C(0,0,0)+2.0));R(0,0,0)=val;}
  }
static void r_e08_55(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=(0.5/(C(0,0,0)+2.0));Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=(-1.0)*Q(0,0,0)+(U(1,n2,0)*((V(0,0,0)-V(-1,0,0))/h0));R(0,0,0)=val;}
  }
static void r_e08_56(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=C(0,0,0);R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=2.0*R(0,1,0)+(((C(1,0,0)-C(0,0,0))/h0)*b);Q(0,0,0)=val;}
  }
static void r_e08_57(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=(C(-1,-1,0)+2.0);Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=3.0*Q(1,0,0)+V(n1,0,0);R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=1.5*R(1,0,0)+(C(n1,0,0)*((V(0,1,0)-V(0,0,0))/h1));Q(0,0,0)=val;}
  }
static void r_e08_58(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=(1.5+((C(1,0,0)-C(0,0,0))/h0));R(0,0,0)=val;}
  }
static void r_e08_59(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=C(0,0,0);R(0,0,0)=val;}
  }
static void r_e08_60(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(V(0,-1,-1)/(3.0*C(0,0,0)));Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=2.0*Q(0,0,0)+(V(0,1,2)*2.0);R(0,0,0)=val;}
  }
static void r_e08_61(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1)for(z=lo2;z<=hi2;z+=s2){const double val=(U(0,n2,0)/(-1.0));R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1)for(z=lo2;z<=hi2;z+=s2){const double val=1.5*R(0,0,0)+(0.5-U(n2,0,0));Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1)for(z=lo2;z<=hi2;z+=s2){const double val=1.5*Q(0,0,0)+(V(0,0,n1)+V(0,0,0));R(0,0,0)=val;}
  }
static void r_e08_62(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=C(n1,0,0);R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=1.5*R(0,1,0)+(((C(0,0,0)-C(0,-1,0))/h1)-((C(0,0,0)-C(0,0,-1))/h2));Q(0,0,0)=val;}
  }
static void r_e08_63(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(((C(0,0,1)-C(0,0,0))/h2)-V(1,0,0));Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=0.5*Q(-1,0,0)+(((V(0,0,0)-V(0,0,-1))/h2)-C(0,0,0));R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=1.5*R(0,0,-1)+((V(1,0,0)-V(0,0,0))/h0);Q(0,0,0)=val;}
  }
static void r_e08_64(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(0.5*(3.0-V(0,1,0)));R(0,0,0)=val;}
  }
static void r_e08_65(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(1.5*(((V(1,0,0)-V(0,0,0))/h0)*((U(0,-2,0)+a)*b)));R(0,0,0)=val;}
  }
static void r_e08_s00(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=a*U(0,n1,0)+a*V(n1,0,0)+0.5*((C(1,0,0)-C(0,0,0))/h0);R(0,0,0)=val;}
  }
static void r_e08_s01(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=((U(0,0,0)-U(-1,0,0))/h0);Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=V(n1,n2,0)+((C(0,1,0)-C(0,0,0))/h1);R(0,0,0)=val;}
  }
static void r_e08_s02(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=b*((U(0,1,0)-U(0,0,0))/h1)+b*((V(1,0,0)-V(0,0,0))/h0)+1.5*((C(0,0,0)-C(0,-1,0))/h1);R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=(b*((U(0,1,0)-U(0,0,0))/h1)+b*((V(1,0,0)-V(0,0,0))/h0)+1.5*((C(0,0,0)-C(0,-1,0))/h1))-a;Q(0,0,0)=val;}
  }
static void r_e08_s03(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=1.5*U(1,1,0)+3.0*((V(1,0,0)-V(0,0,0))/h0)+b*((C(0,1,0)-C(0,0,0))/h1);R(0,0,0)=val;}
  }
static void r_e08_s04(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=a*U(0,n1,0)+b*((V(0,0,0)-V(-1,0,0))/h0)+b*((C(0,1,0)-C(0,0,0))/h1);R(0,0,0)=val;}
  }
static void r_e08_s05(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=2.0*U(1,1,0)+2.0*V(n1,n2,0)+3.0*((C(0,0,0)-C(0,-1,0))/h1);R(0,0,0)=val;}
  }
static void r_e08_s06(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){const double val=0.5*U(n1,0,0)+2.0*((V(1,0,0)-V(0,0,0))/h0);R(0,0,0)=val;}
  }
static void r_e08_s07(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=a*U(0,0,n1)+a*((V(1,0,0)-V(0,0,0))/h0)+0.5*((C(1,0,0)-C(0,0,0))/h0);R(0,0,0)=val;}
  }
static void r_e08_s08(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=2.0*U(0,0,n1)+0.5*((V(0,0,1)-V(0,0,0))/h2)+3.0*C(n1,0,0);R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(2.0*U(0,0,n1)+0.5*((V(0,0,1)-V(0,0,0))/h2)+3.0*C(n1,0,0))-a;Q(0,0,0)=val;}
  }
static void r_e08_s09(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=b*((U(0,0,1)-U(0,0,0))/h2)+b*V(0,0,n1)+1.5*((C(1,0,0)-C(0,0,0))/h0);R(0,0,0)=val;}
  }
static void r_e08_s10(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=1.5*((U(0,0,0)-U(0,-1,0))/h1)+3.0*((V(0,0,0)-V(-1,0,0))/h0)+b*C(n1,0,0);R(0,0,0)=val;}
  }
static void r_e08_s11(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=a*((U(1,0,0)-U(0,0,0))/h0)+b*V(0,n1,0)+b*C(1,0,1);R(0,0,0)=val;}
  }
static void r_e08_s12(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=2.0*((U(0,0,1)-U(0,0,0))/h2)+2.0*((V(1,0,0)-V(0,0,0))/h0)+3.0*C(1,1,0);R(0,0,0)=val;}
  }
static void r_e08_s13(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=0.5*((U(0,0,1)-U(0,0,0))/h2)+2.0*((V(0,0,0)-V(-1,0,0))/h0)+3.0*((C(0,0,0)-C(0,-1,0))/h1);R(0,0,0)=val;}
  }
static void r_e08_s14(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=1.5*U(0,0,n1)+3.0*V(n1,0,0)+a*((C(0,0,0)-C(0,0,-1))/h2);R(0,0,0)=val;}
  }
static void r_e08_s15(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=((U(0,0,0)-U(0,-1,0))/h1);Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=((V(0,1,0)-V(0,0,0))/h1)+C(0,n1,0);R(0,0,0)=val;}
  }
static void r_e08_s16(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(-1.0)*U(n1,0,0)+a*V(n1,0,n2)+(-1.0)*((C(0,0,0)-C(0,0,-1))/h2);R(0,0,0)=val;}
  }
static void r_e08_s17(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=U(n1,n2,0);Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=((V(0,0,1)-V(0,0,0))/h2)+C(0,1,1);R(0,0,0)=val;}
  }
static void r_e08_s18(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=1.5*((U(0,1,0)-U(0,0,0))/h1)+1.5*V(n1,n2,0)+1.5*C(n1,0,0);R(0,0,0)=val;}
  }
static void r_e08_s19(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=a*U(n1,0,n2)+a*((V(1,0,0)-V(0,0,0))/h0)+3.0*C(n1,0,n2);R(0,0,0)=val;}
  }
static void r_e08_s20(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=((U(0,1,0)-U(0,0,0))/h1);Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=((V(0,0,1)-V(0,0,0))/h2)+((C(0,1,0)-C(0,0,0))/h1);R(0,0,0)=val;}
  }
static void r_e08_s21(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=1.5*((U(0,0,0)-U(0,0,-1))/h2)+(-1.0)*((V(1,0,0)-V(0,0,0))/h0)+3.0*C(0,1,1);R(0,0,0)=val;}
  }
static void r_e08_s22(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=1.5*((U(1,0,0)-U(0,0,0))/h0)+1.5*((V(0,1,0)-V(0,0,0))/h1)+1.5*((C(1,0,0)-C(0,0,0))/h0);R(0,0,0)=val;}
  }
static void r_e08_s23(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=0.5*U(0,n1,0)+0.5*((V(0,0,0)-V(-1,0,0))/h0)+2.0*((C(0,0,0)-C(0,0,-1))/h2);R(0,0,0)=val;}
  }
static void r_e08_s24(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=2.0*U(n1,n2,0)+b*V(0,n1,n2)+b*C(1,1,0);R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(2.0*U(n1,n2,0)+b*V(0,n1,n2)+b*C(1,1,0))-a;Q(0,0,0)=val;}
  }
static void r_e08_s25(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=3.0*U(1,0,1)+(-1.0)*V(1,0,1)+a*((C(0,1,0)-C(0,0,0))/h1);R(0,0,0)=val;}
  }
static void r_e08_s26(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=((U(0,0,0)-U(0,0,-1))/h2);Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=V(1,0,1)+C(0,1,1);R(0,0,0)=val;}
  }
static void r_e08_s27(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=U(n1,0,n2);Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=V(n1,n2,0)+C(n1,0,0);R(0,0,0)=val;}
  }
static void r_e08_s28(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=a*((U(1,0,0)-U(0,0,0))/h0)+2.0*((V(0,1,0)-V(0,0,0))/h1)+a*C(0,1,1);R(0,0,0)=val;}
  }
static void r_e08_s29(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(-1.0)*U(1,1,0)+1.5*((V(0,1,0)-V(0,0,0))/h1)+3.0*C(0,1,1);R(0,0,0)=val;}
  }
static void r_e08_s30(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=b*((U(0,1,0)-U(0,0,0))/h1)+1.5*((V(0,0,0)-V(-1,0,0))/h0)+(-1.0)*C(1,0,1);R(0,0,0)=val;}
  }
static void r_e08_s31(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=0.5*((U(1,0,0)-U(0,0,0))/h0)+2.0*((V(0,1,0)-V(0,0,0))/h1)+b*C(1,1,0);R(0,0,0)=val;}
  }
static void r_e08_s32(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(-1.0)*((U(0,0,1)-U(0,0,0))/h2)+(-1.0)*V(1,1,0)+3.0*C(0,n1,n2);R(0,0,0)=val;}
  }
static void r_e08_s33(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=b*((U(0,0,0)-U(0,-1,0))/h1)+b*((V(0,0,1)-V(0,0,0))/h2)+1.5*C(0,n1,n2);R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(b*((U(0,0,0)-U(0,-1,0))/h1)+b*((V(0,0,1)-V(0,0,0))/h2)+1.5*C(0,n1,n2))-a;Q(0,0,0)=val;}
  }
static void r_e08_s34(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(-1.0)*U(0,n1,n2)+2.0*V(n1,0,n2)+3.0*C(n1,n2,0);R(0,0,0)=val;}
  }
static void r_e08_s35(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=((U(1,0,0)-U(0,0,0))/h0);Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=((V(0,0,0)-V(-1,0,0))/h0)+((C(0,0,0)-C(-1,0,0))/h0);R(0,0,0)=val;}
  }
static void r_e08_s36(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=1.5*U(0,n1,0)+(-1.0)*((V(0,0,0)-V(0,0,-1))/h2)+a*C(0,n1,0);R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(1.5*U(0,n1,0)+(-1.0)*((V(0,0,0)-V(0,0,-1))/h2)+a*C(0,n1,0))-a;Q(0,0,0)=val;}
  }
static void r_e08_s37(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=U(1,1,0);Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=V(0,0,n1)+((C(0,0,1)-C(0,0,0))/h2);R(0,0,0)=val;}
  }
static void r_e08_s38(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=a*U(n1,n2,0)+3.0*V(0,n1,n2)+b*C(0,n1,0);R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(a*U(n1,n2,0)+3.0*V(0,n1,n2)+b*C(0,n1,0))-a;Q(0,0,0)=val;}
  }
static void r_e08_s39(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=a*U(0,n1,n2)+0.5*((V(0,1,0)-V(0,0,0))/h1)+b*((C(0,1,0)-C(0,0,0))/h1);R(0,0,0)=val;}
  }
static void r_e08_s40(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=b*((U(0,0,1)-U(0,0,0))/h2)+b*((V(0,0,0)-V(0,-1,0))/h1)+3.0*C(0,1,1);R(0,0,0)=val;}
  }
static void r_e08_s41(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=0.5*((U(0,0,0)-U(0,-1,0))/h1)+0.5*V(n1,0,n2)+a*((C(0,0,1)-C(0,0,0))/h2);R(0,0,0)=val;}
  }
static void r_e08_s42(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=b*U(0,0,n1)+b*V(1,0,1)+0.5*((C(0,0,1)-C(0,0,0))/h2);R(0,0,0)=val;}
  }
static void r_e08_s43(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=a*((U(0,0,0)-U(0,0,-1))/h2)+a*V(n1,0,n2)+0.5*((C(0,0,1)-C(0,0,0))/h2);R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=(a*((U(0,0,0)-U(0,0,-1))/h2)+a*V(n1,0,n2)+0.5*((C(0,0,1)-C(0,0,0))/h2))-a;Q(0,0,0)=val;}
  }
static void r_e08_s44(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gv-(lo2-gv)+1+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=2.0*((U(1,0,0)-U(0,0,0))/h0)+0.5*V(n1,0,0)+3.0*((C(0,0,1)-C(0,0,0))/h2);R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=(2.0*((U(1,0,0)-U(0,0,0))/h0)+0.5*V(n1,0,0)+3.0*((C(0,0,1)-C(0,0,0))/h2))-a;Q(0,0,0)=val;}
  }
static void r_e08_s45(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=b*((U(0,0,1)-U(0,0,0))/h2)+b*V(n1,0,0)+1.5*C(n1,0,n2);R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=(b*((U(0,0,1)-U(0,0,0))/h2)+b*V(n1,0,0)+1.5*C(n1,0,n2))-a;Q(0,0,0)=val;}
  }
static void r_e08_s46(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=1.5*((U(0,0,0)-U(-1,0,0))/h0)+3.0*((V(1,0,0)-V(0,0,0))/h0)+b*C(1,0,1);R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=(1.5*((U(0,0,0)-U(-1,0,0))/h0)+3.0*((V(1,0,0)-V(0,0,0))/h0)+b*C(1,0,1))-a;Q(0,0,0)=val;}
  }
static void r_e08_s47(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=((U(1,0,0)-U(0,0,0))/h0);Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=((V(0,0,0)-V(0,0,-1))/h2)+C(1,0,1);R(0,0,0)=val;}
  }
static void r_e08_s48(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=2.0*((U(0,0,1)-U(0,0,0))/h2)+2.0*((V(0,0,0)-V(-1,0,0))/h0)+3.0*C(0,0,n1);R(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=(2.0*((U(0,0,1)-U(0,0,0))/h2)+2.0*((V(0,0,0)-V(-1,0,0))/h0)+3.0*C(0,0,n1))-a;Q(0,0,0)=val;}
  }
static void r_e08_s49(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=U(0,0,n1);Q(0,0,0)=val;}
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){const double val=((V(1,0,0)-V(0,0,0))/h0);R(0,0,0)=val;}
  }
static void r_e08_s50(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=a*U(0,1,1)+a*((V(0,1,0)-V(0,0,0))/h1)+0.5*C(0,0,n1);R(0,0,0)=val;}
  for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(a*U(0,1,1)+a*((V(0,1,0)-V(0,0,0))/h1)+0.5*C(0,0,n1))-a;Q(0,0,0)=val;}
  }
static void r_e08_s51(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=U(0,n1,0);Q(0,0,0)=val;}
  for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=((V(0,0,0)-V(0,-1,0))/h1)+((C(0,1,0)-C(0,0,0))/h1);R(0,0,0)=val;}
  }
static void r_e08_s52(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=b*((U(0,1,0)-U(0,0,0))/h1)+b*V(0,1,1)+1.5*C(0,n1,0);R(0,0,0)=val;}
  }
static void r_e08_s53(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=1.5*U(0,n1,n2)+3.0*((V(0,0,1)-V(0,0,0))/h2)+b*((C(0,0,0)-C(0,-1,0))/h1);R(0,0,0)=val;}
  }
static void r_e08_s54(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=a*((U(0,0,1)-U(0,0,0))/h2)+b*((V(0,0,1)-V(0,0,0))/h2)+b*((C(0,0,0)-C(0,0,-1))/h2);R(0,0,0)=val;}
  }
static void r_e08_s55(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=2.0*U(0,0,n1)+2.0*((V(0,1,0)-V(0,0,0))/h1)+3.0*C(0,n1,n2);R(0,0,0)=val;}
  for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=(2.0*U(0,0,n1)+2.0*((V(0,1,0)-V(0,0,0))/h1)+3.0*C(0,n1,n2))-a;Q(0,0,0)=val;}
  }
static void r_e08_s56(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){const double val=0.5*((U(0,0,1)-U(0,0,0))/h2)+2.0*((V(0,0,0)-V(0,0,-1))/h2);R(0,0,0)=val;}
  }
static void r_e08_s57(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1){const double val=a*((U(1,0,0)-U(0,0,0))/h0)+a*V(n1,0,0)+0.5*((C(0,0,0)-C(-1,0,0))/h0);R(0,0,0)=val;}
  }
static void r_e08_s58(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(x=lo0;x<=hi0;x+=1){const double val=2.0*((U(1,0,0)-U(0,0,0))/h0);R(0,0,0)=val;}
  }
static void r_e08_s59(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(z=lo2;z<=hi2;z+=1){const double val=a*U(0,0,n1)+a*((V(0,0,1)-V(0,0,0))/h2)+0.5*((C(0,0,1)-C(0,0,0))/h2);R(0,0,0)=val;}
  for(z=lo2;z<=hi2;z+=1){const double val=(a*U(0,0,n1)+a*((V(0,0,1)-V(0,0,0))/h2)+0.5*((C(0,0,1)-C(0,0,0))/h2))-a;Q(0,0,0)=val;}
  }
static void r_e08_s60(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  for(z=lo2;z<=hi2;z+=1){const double val=2.0*((U(0,0,0)-U(0,0,-1))/h2);R(0,0,0)=val;}
  }
static void r_e08_f00(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  const long rt=2+(n1<0?-n1:n1),st=(n2<0?-n2:n2)%rt;auto fl=[](long a,long b){return a>=0?a/b:-((-a+b-1)/b);};
  for(long f=lo0*rt+st;f<=hi0*rt+rt-1;f++){x=fl(f,rt);r_[((0)*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(f-(lo0*rt-gr)))]=U(0,0,0);}
  for(long f=lo0*rt+st;f<=hi0*rt+rt-1;f++){x=fl(f,rt);q_[((0)*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(f-(lo0*rt-gr)))]=V(0,0,0);}
  x=hi0;r_[((0)*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(lo0*rt-(lo0*rt-gr)))]=C(0,0,0);
  }
static void r_e08_f01(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  const long rt=2+(n1<0?-n1:n1),st=(n2<0?-n2:n2)%rt;auto fl=[](long a,long b){return a>=0?a/b:-((-a+b-1)/b);};
  for(long f=lo1*rt+st;f<=hi1*rt+rt-1;f++){y=fl(f,rt);r_[((0)*((hi1*rt+rt-1+gr)-(lo1*rt-gr)+1)+(f-(lo1*rt-gr)))]=U(0,0,0);}
  for(long f=lo1*rt+st;f<=hi1*rt+rt-1;f++){y=fl(f,rt);q_[((0)*((hi1*rt+rt-1+gr)-(lo1*rt-gr)+1)+(f-(lo1*rt-gr)))]=V(0,0,0);}
  y=hi1;r_[((0)*((hi1*rt+rt-1+gr)-(lo1*rt-gr)+1)+(lo1*rt-(lo1*rt-gr)))]=C(0,0,0);
  }
static void r_e08_f02(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  const long rt=2+(n1<0?-n1:n1),st=(n2<0?-n2:n2)%rt;auto fl=[](long a,long b){return a>=0?a/b:-((-a+b-1)/b);};
  y=hi1;for(long f=lo0*rt+st;f<=hi0*rt+rt-1;f++){x=fl(f,rt);r_[((((0)*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(f-(lo0*rt-gr))))*((hi1+gr)-(lo1-gr)+1)+(lo1-(lo1-gr)))]=U(0,0,0);}
  y=lo1;for(long f=lo0*rt+st;f<=hi0*rt+rt-1;f++){x=fl(f,rt);q_[((((0)*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(f-(lo0*rt-gr))))*((hi1+gr)-(lo1-gr)+1)+(hi1-(lo1-gr)))]=V(0,0,0);}
  x=hi0;y=hi1;r_[((((0)*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(lo0*rt-(lo0*rt-gr))))*((hi1+gr)-(lo1-gr)+1)+(lo1-(lo1-gr)))]=C(0,0,0);
  }
static void r_e08_f03(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  const long rt=2+(n1<0?-n1:n1),st=(n2<0?-n2:n2)%rt;auto fl=[](long a,long b){return a>=0?a/b:-((-a+b-1)/b);};
  x=hi0;for(long f=lo1*rt+st;f<=hi1*rt+rt-1;f++){y=fl(f,rt);r_[((((0)*((hi0+gr)-(lo0-gr)+1)+(lo0-(lo0-gr))))*((hi1*rt+rt-1+gr)-(lo1*rt-gr)+1)+(f-(lo1*rt-gr)))]=U(0,0,0);}
  x=lo0;for(long f=lo1*rt+st;f<=hi1*rt+rt-1;f++){y=fl(f,rt);q_[((((0)*((hi0+gr)-(lo0-gr)+1)+(hi0-(lo0-gr))))*((hi1*rt+rt-1+gr)-(lo1*rt-gr)+1)+(f-(lo1*rt-gr)))]=V(0,0,0);}
  x=hi0;y=hi1;r_[((((0)*((hi0+gr)-(lo0-gr)+1)+(lo0-(lo0-gr))))*((hi1*rt+rt-1+gr)-(lo1*rt-gr)+1)+(lo1*rt-(lo1*rt-gr)))]=C(0,0,0);
  }
static void r_e08_f04(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  const long rt=2+(n1<0?-n1:n1),st=(n2<0?-n2:n2)%rt;auto fl=[](long a,long b){return a>=0?a/b:-((-a+b-1)/b);};
  y=hi1;for(long f=lo2*rt+st;f<=hi2*rt+rt-1;f++){z=fl(f,rt);r_[((((0)*((hi1+gr)-(lo1-gr)+1)+(lo1-(lo1-gr))))*((hi2*rt+rt-1+gr)-(lo2*rt-gr)+1)+(f-(lo2*rt-gr)))]=U(0,0,0);}
  y=lo1;for(long f=lo2*rt+st;f<=hi2*rt+rt-1;f++){z=fl(f,rt);q_[((((0)*((hi2*rt+rt-1+gr)-(lo2*rt-gr)+1)+(f-(lo2*rt-gr))))*((hi1+gr)-(lo1-gr)+1)+(hi1-(lo1-gr)))]=V(0,0,0);}
  y=hi1;z=hi2;r_[((((0)*((hi1+gr)-(lo1-gr)+1)+(lo1-(lo1-gr))))*((hi2*rt+rt-1+gr)-(lo2*rt-gr)+1)+(lo2*rt-(lo2*rt-gr)))]=C(0,0,0);
  }
static void r_e08_f05(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  const long rt=2+(n1<0?-n1:n1),st=(n2<0?-n2:n2)%rt;auto fl=[](long a,long b){return a>=0?a/b:-((-a+b-1)/b);};
  z=hi2;for(long f=lo0*rt+st;f<=hi0*rt+rt-1;f++){x=fl(f,rt);r_[((((0)*((hi2+gr)-(lo2-gr)+1)+(lo2-(lo2-gr))))*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(f-(lo0*rt-gr)))]=U(0,0,0);}
  z=lo2;for(long f=lo0*rt+st;f<=hi0*rt+rt-1;f++){x=fl(f,rt);q_[((((0)*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(f-(lo0*rt-gr))))*((hi2+gr)-(lo2-gr)+1)+(hi2-(lo2-gr)))]=V(0,0,0);}
  x=hi0;z=hi2;r_[((((0)*((hi2+gr)-(lo2-gr)+1)+(lo2-(lo2-gr))))*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(lo0*rt-(lo0*rt-gr)))]=C(0,0,0);
  }
static void r_e08_f06(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  const long rt=2+(n1<0?-n1:n1),st=(n2<0?-n2:n2)%rt;auto fl=[](long a,long b){return a>=0?a/b:-((-a+b-1)/b);};
  y=hi1;z=hi2;for(long f=lo0*rt+st;f<=hi0*rt+rt-1;f++){x=fl(f,rt);r_[((((((0)*((hi2+gr)-(lo2-gr)+1)+(lo2-(lo2-gr))))*((hi1+gr)-(lo1-gr)+1)+(lo1-(lo1-gr))))*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(f-(lo0*rt-gr)))]=U(0,0,0);}
  y=lo1;z=lo2;for(long f=lo0*rt+st;f<=hi0*rt+rt-1;f++){x=fl(f,rt);q_[((((((0)*((hi2+gr)-(lo2-gr)+1)+(hi2-(lo2-gr))))*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(f-(lo0*rt-gr))))*((hi1+gr)-(lo1-gr)+1)+(hi1-(lo1-gr)))]=V(0,0,0);}
  x=hi0;y=hi1;z=hi2;r_[((((((0)*((hi2+gr)-(lo2-gr)+1)+(lo2-(lo2-gr))))*((hi1+gr)-(lo1-gr)+1)+(lo1-(lo1-gr))))*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(lo0*rt-(lo0*rt-gr)))]=C(0,0,0);
  }
static void r_e08_f07(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  const long rt=2+(n1<0?-n1:n1),st=(n2<0?-n2:n2)%rt;auto fl=[](long a,long b){return a>=0?a/b:-((-a+b-1)/b);};
  x=hi0;z=hi2;for(long f=lo1*rt+st;f<=hi1*rt+rt-1;f++){y=fl(f,rt);r_[((((((0)*((hi1*rt+rt-1+gr)-(lo1*rt-gr)+1)+(f-(lo1*rt-gr))))*((hi0+gr)-(lo0-gr)+1)+(lo0-(lo0-gr))))*((hi2+gr)-(lo2-gr)+1)+(lo2-(lo2-gr)))]=U(0,0,0);}
  x=lo0;z=lo2;for(long f=lo1*rt+st;f<=hi1*rt+rt-1;f++){y=fl(f,rt);q_[((((((0)*((hi1*rt+rt-1+gr)-(lo1*rt-gr)+1)+(f-(lo1*rt-gr))))*((hi0+gr)-(lo0-gr)+1)+(hi0-(lo0-gr))))*((hi2+gr)-(lo2-gr)+1)+(hi2-(lo2-gr)))]=V(0,0,0);}
  x=hi0;y=hi1;z=hi2;r_[((((((0)*((hi1*rt+rt-1+gr)-(lo1*rt-gr)+1)+(lo1*rt-(lo1*rt-gr))))*((hi0+gr)-(lo0-gr)+1)+(lo0-(lo0-gr))))*((hi2+gr)-(lo2-gr)+1)+(lo2-(lo2-gr)))]=C(0,0,0);
  }
static void r_e08_f08(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  const long rt=2+(n1<0?-n1:n1),st=(n2<0?-n2:n2)%rt;auto fl=[](long a,long b){return a>=0?a/b:-((-a+b-1)/b);};
  y=hi1;z=hi2;for(long f=lo0*rt+st;f<=hi0*rt+rt-1;f++){x=fl(f,rt);r_[((((((0)*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(f-(lo0*rt-gr))))*((hi2+gr)-(lo2-gr)+1)+(lo2-(lo2-gr))))*((hi1+gr)-(lo1-gr)+1)+(lo1-(lo1-gr)))]=U(0,0,0);}
  y=lo1;z=lo2;for(long f=lo0*rt+st;f<=hi0*rt+rt-1;f++){x=fl(f,rt);q_[((((((0)*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(f-(lo0*rt-gr))))*((hi2+gr)-(lo2-gr)+1)+(hi2-(lo2-gr))))*((hi1+gr)-(lo1-gr)+1)+(hi1-(lo1-gr)))]=V(0,0,0);}
  x=hi0;y=hi1;z=hi2;r_[((((((0)*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(lo0*rt-(lo0*rt-gr))))*((hi2+gr)-(lo2-gr)+1)+(lo2-(lo2-gr))))*((hi1+gr)-(lo1-gr)+1)+(lo1-(lo1-gr)))]=C(0,0,0);
  }
static void r_e08_f09(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  const long rt=2+(n1<0?-n1:n1),st=(n2<0?-n2:n2)%rt;auto fl=[](long a,long b){return a>=0?a/b:-((-a+b-1)/b);};
  y=hi1;z=hi2;for(long f=lo0*rt+st;f<=hi0*rt+rt-1;f++){x=fl(f,rt);r_[((((((0)*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(f-(lo0*rt-gr))))*((hi1+gr)-(lo1-gr)+1)+(lo1-(lo1-gr))))*((hi2+gr)-(lo2-gr)+1)+(lo2-(lo2-gr)))]=U(0,0,0);}
  y=lo1;z=lo2;for(long f=lo0*rt+st;f<=hi0*rt+rt-1;f++){x=fl(f,rt);q_[((((((0)*((hi2+gr)-(lo2-gr)+1)+(hi2-(lo2-gr))))*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(f-(lo0*rt-gr))))*((hi1+gr)-(lo1-gr)+1)+(hi1-(lo1-gr)))]=V(0,0,0);}
  x=hi0;y=hi1;z=hi2;r_[((((((0)*((hi0*rt+rt-1+gr)-(lo0*rt-gr)+1)+(lo0*rt-(lo0*rt-gr))))*((hi1+gr)-(lo1-gr)+1)+(lo1-(lo1-gr))))*((hi2+gr)-(lo2-gr)+1)+(lo2-(lo2-gr)))]=C(0,0,0);
  }
static void r_e08_f10(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  const long rt=2+(n1<0?-n1:n1),st=(n2<0?-n2:n2)%rt;auto fl=[](long a,long b){return a>=0?a/b:-((-a+b-1)/b);};
  x=hi0;y=hi1;for(long f=lo2*rt+st;f<=hi2*rt+rt-1;f++){z=fl(f,rt);r_[((((((0)*((hi1+gr)-(lo1-gr)+1)+(lo1-(lo1-gr))))*((hi2*rt+rt-1+gr)-(lo2*rt-gr)+1)+(f-(lo2*rt-gr))))*((hi0+gr)-(lo0-gr)+1)+(lo0-(lo0-gr)))]=U(0,0,0);}
  x=lo0;y=lo1;for(long f=lo2*rt+st;f<=hi2*rt+rt-1;f++){z=fl(f,rt);q_[((((((0)*((hi0+gr)-(lo0-gr)+1)+(hi0-(lo0-gr))))*((hi2*rt+rt-1+gr)-(lo2*rt-gr)+1)+(f-(lo2*rt-gr))))*((hi1+gr)-(lo1-gr)+1)+(hi1-(lo1-gr)))]=V(0,0,0);}
  x=hi0;y=hi1;z=hi2;r_[((((((0)*((hi1+gr)-(lo1-gr)+1)+(lo1-(lo1-gr))))*((hi2*rt+rt-1+gr)-(lo2*rt-gr)+1)+(lo2*rt-(lo2*rt-gr))))*((hi0+gr)-(lo0-gr)+1)+(lo0-(lo0-gr)))]=C(0,0,0);
  }
static void r_e08_f11(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long s0 = *(int*)A[6]; (void)s0;
  const long s1 = *(int*)A[7]; (void)s1;
  const long s2 = *(int*)A[8]; (void)s2;
  const long gu = *(int*)A[9]; (void)gu;
  const long gv = *(int*)A[10]; (void)gv;
  const long gc = *(int*)A[11]; (void)gc;
  const long gr = *(int*)A[12]; (void)gr;
  const long xl0 = *(int*)A[13]; (void)xl0;
  const long xh0 = *(int*)A[14]; (void)xh0;
  const long xl1 = *(int*)A[15]; (void)xl1;
  const long xh1 = *(int*)A[16]; (void)xh1;
  const long xl2 = *(int*)A[17]; (void)xl2;
  const long xh2 = *(int*)A[18]; (void)xh2;
  const long yl0 = *(int*)A[19]; (void)yl0;
  const long yh0 = *(int*)A[20]; (void)yh0;
  const long yl1 = *(int*)A[21]; (void)yl1;
  const long yh1 = *(int*)A[22]; (void)yh1;
  const long yl2 = *(int*)A[23]; (void)yl2;
  const long yh2 = *(int*)A[24]; (void)yh2;
  const long n1 = *(int*)A[25]; (void)n1;
  const long n2 = *(int*)A[26]; (void)n2;
  const double a = *(double*)A[27]; (void)a;
  const double b = *(double*)A[28]; (void)b;
  const double h0 = *(double*)A[29]; (void)h0;
  const double h1 = *(double*)A[30]; (void)h1;
  const double h2 = *(double*)A[31]; (void)h2;
  double* u_ = (double*)A[32]; (void)u_;
  double* v_ = (double*)A[33]; (void)v_;
  double* c_ = (double*)A[34]; (void)c_;
  double* r_ = (double*)A[35]; (void)r_;
  double* q_ = (double*)A[36]; (void)q_;
  long x=0,y=0,z=0;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  const long rt=2+(n1<0?-n1:n1),st=(n2<0?-n2:n2)%rt;auto fl=[](long a,long b){return a>=0?a/b:-((-a+b-1)/b);};
  x=hi0;y=hi1;for(long f=lo2*rt+st;f<=hi2*rt+rt-1;f++){z=fl(f,rt);r_[((((((0)*((hi2*rt+rt-1+gr)-(lo2*rt-gr)+1)+(f-(lo2*rt-gr))))*((hi1+gr)-(lo1-gr)+1)+(lo1-(lo1-gr))))*((hi0+gr)-(lo0-gr)+1)+(lo0-(lo0-gr)))]=U(0,0,0);}
  x=lo0;y=lo1;for(long f=lo2*rt+st;f<=hi2*rt+rt-1;f++){z=fl(f,rt);q_[((((((0)*((hi1+gr)-(lo1-gr)+1)+(hi1-(lo1-gr))))*((hi0+gr)-(lo0-gr)+1)+(hi0-(lo0-gr))))*((hi2*rt+rt-1+gr)-(lo2*rt-gr)+1)+(f-(lo2*rt-gr)))]=V(0,0,0);}
  x=hi0;y=hi1;z=hi2;r_[((((((0)*((hi2*rt+rt-1+gr)-(lo2*rt-gr)+1)+(lo2*rt-(lo2*rt-gr))))*((hi1+gr)-(lo1-gr)+1)+(lo1-(lo1-gr))))*((hi0+gr)-(lo0-gr)+1)+(lo0-(lo0-gr)))]=C(0,0,0);
  }
struct Reg { Reg() {
  sim_register_harness("e08_00", 0, 1, r_e08_00);
  sim_register_harness("e08_01", 0, 1, r_e08_01);
  sim_register_harness("e08_02", 0, 1, r_e08_02);
  sim_register_harness("e08_03", 0, 1, r_e08_03);
  sim_register_harness("e08_04", 0, 1, r_e08_04);
  sim_register_harness("e08_05", 0, 1, r_e08_05);
  sim_register_harness("e08_06", 0, 1, r_e08_06);
  sim_register_harness("e08_07", 0, 1, r_e08_07);
  sim_register_harness("e08_08", 0, 1, r_e08_08);
  sim_register_harness("e08_09", 0, 1, r_e08_09);
  sim_register_harness("e08_10", 0, 1, r_e08_10);
  sim_register_harness("e08_11", 0, 1, r_e08_11);
  sim_register_harness("e08_12", 0, 1, r_e08_12);
  sim_register_harness("e08_13", 0, 1, r_e08_13);
  sim_register_harness("e08_14", 0, 1, r_e08_14);
  sim_register_harness("e08_15", 0, 1, r_e08_15);
  sim_register_harness("e08_16", 0, 1, r_e08_16);
  sim_register_harness("e08_17", 0, 1, r_e08_17);
  sim_register_harness("e08_18", 0, 1, r_e08_18);
  sim_register_harness("e08_19", 0, 1, r_e08_19);
  sim_register_harness("e08_20", 0, 1, r_e08_20);
  sim_register_harness("e08_21", 0, 1, r_e08_21);
  sim_register_harness("e08_22", 0, 1, r_e08_22);
  sim_register_harness("e08_23", 0, 1, r_e08_23);
  sim_register_harness("e08_24", 0, 1, r_e08_24);
  sim_register_harness("e08_25", 0, 1, r_e08_25);
  sim_register_harness("e08_26", 0, 1, r_e08_26);
  sim_register_harness("e08_27", 0, 1, r_e08_27);
  sim_register_harness("e08_28", 0, 1, r_e08_28);
  sim_register_harness("e08_29", 0, 1, r_e08_29);
  sim_register_harness("e08_30", 0, 1, r_e08_30);
  sim_register_harness("e08_31", 0, 1, r_e08_31);
  sim_register_harness("e08_32", 0, 1, r_e08_32);
  sim_register_harness("e08_33", 0, 1, r_e08_33);
  sim_register_harness("e08_34", 0, 1, r_e08_34);
  sim_register_harness("e08_35", 0, 1, r_e08_35);
  sim_register_harness("e08_36", 0, 1, r_e08_36);
  sim_register_harness("e08_37", 0, 1, r_e08_37);
  sim_register_harness("e08_38", 0, 1, r_e08_38);
  sim_register_harness("e08_39", 0, 1, r_e08_39);
  sim_register_harness("e08_40", 0, 1, r_e08_40);
  sim_register_harness("e08_41", 0, 1, r_e08_41);
  sim_register_harness("e08_42", 0, 1, r_e08_42);
  sim_register_harness("e08_43", 0, 1, r_e08_43);
  sim_register_harness("e08_44", 0, 1, r_e08_44);
  sim_register_harness("e08_45", 0, 1, r_e08_45);
  sim_register_harness("e08_46", 0, 1, r_e08_46);
  sim_register_harness("e08_47", 0, 1, r_e08_47);
  sim_register_harness("e08_48", 0, 1, r_e08_48);
  sim_register_harness("e08_49", 0, 1, r_e08_49);
  sim_register_harness("e08_50", 0, 1, r_e08_50);
  sim_register_harness("e08_51", 0, 1, r_e08_51);
  sim_register_harness("e08_52", 0, 1, r_e08_52);
  sim_register_harness("e08_53", 0, 1, r_e08_53);
  sim_register_harness("e08_54", 0, 1, r_e08_54);
  sim_register_harness("e08_55", 0, 1, r_e08_55);
  sim_register_harness("e08_56", 0, 1, r_e08_56);
  sim_register_harness("e08_57", 0, 1, r_e08_57);
  sim_register_harness("e08_58", 0, 1, r_e08_58);
  sim_register_harness("e08_59", 0, 1, r_e08_59);
  sim_register_harness("e08_60", 0, 1, r_e08_60);
  sim_register_harness("e08_61", 0, 1, r_e08_61);
  sim_register_harness("e08_62", 0, 1, r_e08_62);
  sim_register_harness("e08_63", 0, 1, r_e08_63);
  sim_register_harness("e08_64", 0, 1, r_e08_64);
  sim_register_harness("e08_65", 0, 1, r_e08_65);
  sim_register_harness("e08_s00", 0, 1, r_e08_s00);
  sim_register_harness("e08_s01", 0, 1, r_e08_s01);
  sim_register_harness("e08_s02", 0, 1, r_e08_s02);
  sim_register_harness("e08_s03", 0, 1, r_e08_s03);
  sim_register_harness("e08_s04", 0, 1, r_e08_s04);
  sim_register_harness("e08_s05", 0, 1, r_e08_s05);
  sim_register_harness("e08_s06", 0, 1, r_e08_s06);
  sim_register_harness("e08_s07", 0, 1, r_e08_s07);
  sim_register_harness("e08_s08", 0, 1, r_e08_s08);
  sim_register_harness("e08_s09", 0, 1, r_e08_s09);
  sim_register_harness("e08_s10", 0, 1, r_e08_s10);
  sim_register_harness("e08_s11", 0, 1, r_e08_s11);
  sim_register_harness("e08_s12", 0, 1, r_e08_s12);
  sim_register_harness("e08_s13", 0, 1, r_e08_s13);
  sim_register_harness("e08_s14", 0, 1, r_e08_s14);
  sim_register_harness("e08_s15", 0, 1, r_e08_s15);
  sim_register_harness("e08_s16", 0, 1, r_e08_s16);
  sim_register_harness("e08_s17", 0, 1, r_e08_s17);
  sim_register_harness("e08_s18", 0, 1, r_e08_s18);
  sim_register_harness("e08_s19", 0, 1, r_e08_s19);
  sim_register_harness("e08_s20", 0, 1, r_e08_s20);
  sim_register_harness("e08_s21", 0, 1, r_e08_s21);
  sim_register_harness("e08_s22", 0, 1, r_e08_s22);
  sim_register_harness("e08_s23", 0, 1, r_e08_s23);
  sim_register_harness("e08_s24", 0, 1, r_e08_s24);
  sim_register_harness("e08_s25", 0, 1, r_e08_s25);
  sim_register_harness("e08_s26", 0, 1, r_e08_s26);
  sim_register_harness("e08_s27", 0, 1, r_e08_s27);
  sim_register_harness("e08_s28", 0, 1, r_e08_s28);
  sim_register_harness("e08_s29", 0, 1, r_e08_s29);
  sim_register_harness("e08_s30", 0, 1, r_e08_s30);
  sim_register_harness("e08_s31", 0, 1, r_e08_s31);
  sim_register_harness("e08_s32", 0, 1, r_e08_s32);
  sim_register_harness("e08_s33", 0, 1, r_e08_s33);
  sim_register_harness("e08_s34", 0, 1, r_e08_s34);
  sim_register_harness("e08_s35", 0, 1, r_e08_s35);
  sim_register_harness("e08_s36", 0, 1, r_e08_s36);
  sim_register_harness("e08_s37", 0, 1, r_e08_s37);
  sim_register_harness("e08_s38", 0, 1, r_e08_s38);
  sim_register_harness("e08_s39", 0, 1, r_e08_s39);
  sim_register_harness("e08_s40", 0, 1, r_e08_s40);
  sim_register_harness("e08_s41", 0, 1, r_e08_s41);
  sim_register_harness("e08_s42", 0, 1, r_e08_s42);
  sim_register_harness("e08_s43", 0, 1, r_e08_s43);
  sim_register_harness("e08_s44", 0, 1, r_e08_s44);
  sim_register_harness("e08_s45", 0, 1, r_e08_s45);
  sim_register_harness("e08_s46", 0, 1, r_e08_s46);
  sim_register_harness("e08_s47", 0, 1, r_e08_s47);
  sim_register_harness("e08_s48", 0, 1, r_e08_s48);
  sim_register_harness("e08_s49", 0, 1, r_e08_s49);
  sim_register_harness("e08_s50", 0, 1, r_e08_s50);
  sim_register_harness("e08_s51", 0, 1, r_e08_s51);
  sim_register_harness("e08_s52", 0, 1, r_e08_s52);
  sim_register_harness("e08_s53", 0, 1, r_e08_s53);
  sim_register_harness("e08_s54", 0, 1, r_e08_s54);
  sim_register_harness("e08_s55", 0, 1, r_e08_s55);
  sim_register_harness("e08_s56", 0, 1, r_e08_s56);
  sim_register_harness("e08_s57", 0, 1, r_e08_s57);
  sim_register_harness("e08_s58", 0, 1, r_e08_s58);
  sim_register_harness("e08_s59", 0, 1, r_e08_s59);
  sim_register_harness("e08_s60", 0, 1, r_e08_s60);
  sim_register_harness("e08_f00", 0, 1, r_e08_f00);
  sim_register_harness("e08_f01", 0, 1, r_e08_f01);
  sim_register_harness("e08_f02", 0, 1, r_e08_f02);
  sim_register_harness("e08_f03", 0, 1, r_e08_f03);
  sim_register_harness("e08_f04", 0, 1, r_e08_f04);
  sim_register_harness("e08_f05", 0, 1, r_e08_f05);
  sim_register_harness("e08_f06", 0, 1, r_e08_f06);
  sim_register_harness("e08_f07", 0, 1, r_e08_f07);
  sim_register_harness("e08_f08", 0, 1, r_e08_f08);
  sim_register_harness("e08_f09", 0, 1, r_e08_f09);
  sim_register_harness("e08_f10", 0, 1, r_e08_f10);
  sim_register_harness("e08_f11", 0, 1, r_e08_f11);
} } reg;
}

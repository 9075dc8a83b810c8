// generated by tools/gen_h.py: the window and dot programs as plain loops
extern "C" void sim_register_harness(const char*, int, int, void (*)(void**));
namespace {
static void r_e10_00(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*1+0],0,0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=s0){ST(0)=(1.5-ST(3));}
  }
static void r_e10_01(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*1+0],0,0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1){ST(2)=(ST(3)*(U(0,0,0)/(3.0*C(0,0,0))));}
  }
static void r_e10_02(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*1+0],0,0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1){ST(1)=((1.5+C(1,0,0))-ST(2));}
  }
static void r_e10_03(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*1+0],0,0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=s0){ST(3)=((-1.0)*(ST(3)/0.5));}
  }
static void r_e10_04(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*1+0],0,0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1){ST(3)=C(0,0,0);ST(1)=((ST(1)/0.5)*a);}
  }
static void r_e10_05(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*1+0],0,0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1){ST(0)=((-1.0)*ST(0));ST(3)=2.0;ST(0)=(2.0+(b-ST(2)));}
  }
static void r_e10_06(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*1+0],0,0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1){ST(3)=U(-1,0,0);ST(1)=U(0,0,0);}
  }
static void r_e10_07(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*1+0],0,0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1){ST(1)=3.0*U(0,0,0);ST(4)=3.0*U(1,0,0);}
  }
static void r_e10_08(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*1+0],0,0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1){R(0,0,0)=R(0,0,0)-(-(a-TI(1)));}
  }
static void r_e10_09(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*1+0],0,0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=s0){R(0,0,0)=R(0,0,0)-(TI(2)*TI(1));}
  }
static void r_e10_10(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*1+0],0,0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1){R(0,0,0)=DOT();}
  }
static void r_e10_11(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*1+0],0,0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1){R(0,0,0)=2.0*(V(0,0,0)+((V(1,0,0)-V(0,0,0))/h0))-b*DOT();}
  }
static void r_e10_12(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*1+0],0,0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=s0){ST(2)=2.0;ST(3)=2.0;ST(3)=(-1.0);ST(2)=(-1.0);ST(2)=1.5;ST(1)=1.5;}
  }
static void r_e10_13(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],offs_[m*2+1],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){ST(2)=(1.5-((ST(2)+(((U(0,0,0)-U(-1,0,0))/h0)+2.0))+b));}
  }
static void r_e10_14(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],offs_[m*2+1],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){ST(0)=(b-((((V(0,0,0)-V(0,-1,0))/h1)*2.0)+ST(1)));}
  }
static void r_e10_15(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],offs_[m*2+1],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1){ST(3)=(ST(0)/1.5);}
  }
static void r_e10_16(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],offs_[m*2+1],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){ST(2)=(((1.5-C(-1,1,0))-(a*ST(2)))-ST(0));}
  }
static void r_e10_17(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],offs_[m*2+1],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){ST(0)=(2.0/(C(0,0,0)+2.0));ST(3)=(U(0,0,0)-(ST(0)-ST(1)));}
  }
static void r_e10_18(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],offs_[m*2+1],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1){ST(3)=(3.0+(2.0+ST(1)));ST(3)=(ST(0)*ST(2));ST(3)=((a/(C(0,0,0)+2.0))+ST(1));}
  }
static void r_e10_19(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],offs_[m*2+1],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){ST(3)=3.0*U(0,0,0);ST(1)=3.0*U(1,0,0);ST(2)=0.5*U(0,-1,0);ST(4)=0.5*U(0,0,0);}
  }
static void r_e10_20(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],offs_[m*2+1],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){ST(0)=1.5*C(0,0,0);ST(4)=1.5*C(1,0,0);ST(0)=((ST(2)-(U(1,0,0)+U(0,-1,0)))-(V(0,n1,0)/(3.0*C(0,0,0))));}
  }
static void r_e10_21(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+1],offs_[m*2+0],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1){R(0,0,0)=R(0,0,0)-(TI(2)+(C(0,0,0)+V(0,0,0)));}
  }
static void r_e10_22(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+1],offs_[m*2+0],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){R(0,0,0)=R(0,0,0)-(TI(2)+V(0,0,0));}
  }
static void r_e10_23(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],offs_[m*2+1],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){R(0,0,0)=DOT();}
  }
static void r_e10_24(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],offs_[m*2+1],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){R(0,0,0)=0.5*(2.0/(C(0,0,0)+2.0))-b*DOT();}
  }
static void r_e10_25(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],offs_[m*2+1],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){ST(2)=a;ST(0)=a;ST(2)=2.0;ST(2)=b;ST(1)=b;}
  }
static void r_e10_26(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+1],offs_[m*3+2]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(1)=((V(0,0,n2)-U(0,-1,2))+(0.5-ST(2)));ST(3)=(1.5*(C(0,1,0)*((U(0,n2,0)-V(0,0,0))-ST(3))));}
  }
static void r_e10_27(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1+1)+((z+dk)-(lo2-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+1],offs_[m*3+2]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1)for(z=lo2;z<=hi2;z+=s2){ST(3)=(a+(-(1.5+ST(3))));}
  }
static void r_e10_28(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+1],offs_[m*3+2]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(2)=(ST(2)+ST(1));}
  }
static void r_e10_29(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+1],offs_[m*3+2]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(1)=(b-ST(2));}
  }
static void r_e10_30(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+2],offs_[m*3+0],offs_[m*3+1]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1)for(z=lo2;z<=hi2;z+=s2){ST(1)=(ST(2)-(0.5/(C(0,0,0)+2.0)));ST(3)=(0.5-ST(1));ST(0)=(ST(2)+2.0);ST(3)=2.0;}
  }
static void r_e10_31(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+1],offs_[m*3+2]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(3)=(b*U(0,0,2));ST(0)=(V(0,0,0)/(3.0*C(0,0,0)));ST(0)=((C(0,-2,0)+((U(0,0,0)-U(-1,0,0))/h0))-(-ST(3)));}
  }
static void r_e10_32(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1+1)+((z+dk)-(lo2-gr-xl2)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+1],offs_[m*3+2]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(4)=3.0*U(-1,0,0);ST(3)=3.0*U(0,0,0);ST(4)=1.5*U(0,-1,0);ST(1)=1.5*U(0,0,0);ST(1)=b*C(0,0,0);ST(0)=b*C(0,0,1);ST(0)=((1.5/(C(0,0,0)+2.0))-((U(0,0,-2)*((C(0,1,0)-C(0,0,0))/h1))+ST(0)));}
  }
static void r_e10_33(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+1],offs_[m*3+2],offs_[m*3+0]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(4)=0.5*U(0,0,0);ST(1)=0.5*U(0,0,1);}
  }
static void r_e10_34(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+2],offs_[m*3+1]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){R(0,0,0)=R(0,0,0)-(((((U(0,0,0)-U(-1,0,0))/h0)-1.5)*TI(0))*TI(3));Q(0,0,0)=Q(0,0,0)-(0.5+(-TI(2)));}
  }
static void r_e10_35(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1+1)+((z+dk)-(lo2-gr-yl2)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+2],offs_[m*3+0],offs_[m*3+1]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){R(0,0,0)=R(0,0,0)-(-TI(0));}
  }
static void r_e10_36(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+1],offs_[m*3+2]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){R(0,0,0)=a*(3.0*((V(0,0,0)-V(0,-1,0))/h1))-a*DOT();}
  }
static void r_e10_37(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+1],offs_[m*3+2]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){R(0,0,0)=a*(((C(0,1,0)-C(0,0,0))/h1)+V(0,0,0))-b*DOT();}
  }
static void r_e10_38(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+1],offs_[m*3+2]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(0)=1.5;ST(3)=1.5;ST(3)=(-1.0);ST(3)=1.5;}
  }
static void r_e10_s00(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+1],offs_[m*2+0],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){ST(4)=3.0*C(0,0,0);ST(5)=3.0*C(0,1,0);ST(1)=3.0*U(-1,0,0);ST(0)=3.0*U(0,0,0);ST(3)=a*V(-1,0,0);ST(2)=a*V(0,0,0);}
  }
static void r_e10_s01(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],offs_[m*2+1],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){ST(3)=3.0*V(0,-1,0);ST(2)=3.0*V(0,0,0);ST(5)=a*C(0,0,0);ST(4)=a*C(1,0,0);ST(1)=(-1.0)*U(0,0,0);ST(0)=(-1.0)*U(0,1,0);}
  }
static void r_e10_s02(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],offs_[m*2+1],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){ST(1)=(-1.0)*U(0,0,0);ST(0)=(-1.0)*U(1,0,0);ST(3)=3.0*V(0,-1,0);ST(2)=3.0*V(0,0,0);}
  }
static void r_e10_s03(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+1],offs_[m*3+2]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(3)=a*V(0,0,0);ST(2)=a*V(0,0,1);ST(5)=3.0*C(-1,0,0);ST(4)=3.0*C(0,0,0);ST(0)=3.0*U(0,0,0);ST(1)=3.0*U(0,0,1);}
  }
static void r_e10_s04(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+1],offs_[m*3+2],offs_[m*3+0]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(3)=3.0*V(0,-1,0);ST(2)=3.0*V(0,0,0);ST(4)=a*C(0,0,0);ST(5)=a*C(1,0,0);ST(1)=(-1.0)*U(0,0,0);ST(0)=(-1.0)*U(0,0,1);}
  }
static void r_e10_s05(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+2],offs_[m*3+1]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(1)=(-1.0)*U(0,0,0);ST(0)=(-1.0)*U(0,1,0);ST(3)=3.0*V(-1,0,0);ST(2)=3.0*V(0,0,0);ST(4)=2.0*C(0,-1,0);ST(5)=2.0*C(0,0,0);}
  }
static void r_e10_s06(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+1],offs_[m*3+2],offs_[m*3+0]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(3)=a*V(0,-1,0);ST(2)=a*V(0,0,0);ST(4)=0.5*C(0,0,0);ST(5)=0.5*C(1,0,0);ST(0)=b*U(0,0,0);ST(1)=b*U(1,0,0);}
  }
static void r_e10_s07(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+1],offs_[m*3+2],offs_[m*3+0]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(3)=(-1.0)*V(0,0,0);ST(2)=(-1.0)*V(0,0,1);ST(4)=a*C(0,0,0);ST(5)=a*C(0,0,1);ST(1)=(-1.0)*U(0,-1,0);ST(0)=(-1.0)*U(0,0,0);}
  }
static void r_e10_s08(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1+1)+((z+dk)-(lo2-gr-xl2)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+2],offs_[m*3+1],offs_[m*3+0]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(0)=1.5*U(0,0,0);ST(1)=1.5*U(0,1,0);ST(5)=b*C(0,0,-1);ST(4)=b*C(0,0,0);ST(3)=(-1.0)*V(-1,0,0);ST(2)=(-1.0)*V(0,0,0);}
  }
static void r_e10_s09(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+2],offs_[m*3+1]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(0)=b*U(0,0,0);ST(1)=b*U(0,1,0);ST(5)=(-1.0)*C(0,0,0);ST(4)=(-1.0)*C(0,1,0);ST(2)=b*V(0,0,0);ST(3)=b*V(0,1,0);}
  }
static void r_e10_s10(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+1],offs_[m*3+2],offs_[m*3+0]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(4)=2.0*C(0,0,0);ST(5)=2.0*C(0,0,1);ST(2)=a*V(0,0,-1);ST(3)=a*V(0,0,0);ST(1)=a*U(0,0,0);ST(0)=a*U(1,0,0);}
  }
static void r_e10_s11(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+2],offs_[m*3+1]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(4)=(-1.0)*C(-1,0,0);ST(5)=(-1.0)*C(0,0,0);ST(2)=0.5*V(0,0,0);ST(3)=0.5*V(1,0,0);ST(0)=(-1.0)*U(0,0,0);ST(1)=(-1.0)*U(0,1,0);}
  }
static void r_e10_s12(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+2],offs_[m*3+1],offs_[m*3+0]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(1)=a*U(0,0,0);ST(0)=a*U(1,0,0);ST(4)=a*C(0,-1,0);ST(5)=a*C(0,0,0);ST(3)=2.0*V(-1,0,0);ST(2)=2.0*V(0,0,0);}
  }
static void r_e10_s13(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+1],offs_[m*3+2]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(0)=1.5*U(0,0,-1);ST(1)=1.5*U(0,0,0);ST(2)=(-1.0)*V(-1,0,0);ST(3)=(-1.0)*V(0,0,0);ST(5)=b*C(0,0,-1);ST(4)=b*C(0,0,0);}
  }
static void r_e10_s14(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+2],offs_[m*3+0],offs_[m*3+1]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(3)=0.5*V(0,0,-1);ST(2)=0.5*V(0,0,0);ST(4)=0.5*C(0,-1,0);ST(5)=0.5*C(0,0,0);ST(0)=0.5*U(0,0,-1);ST(1)=0.5*U(0,0,0);}
  }
static void r_e10_s15(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gc-(lo0-gc)+1+1)+((x+di)-(lo0-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],0,offs_[m*2+1]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){ST(2)=a*V(0,0,-1);ST(3)=a*V(0,0,0);ST(4)=3.0*C(0,0,0);ST(5)=3.0*C(1,0,0);ST(0)=3.0*U(0,0,0);ST(1)=3.0*U(1,0,0);}
  }
static void r_e10_s16(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],0,offs_[m*2+1]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){ST(2)=3.0*V(0,0,-1);ST(3)=3.0*V(0,0,0);ST(5)=a*C(-1,0,0);ST(4)=a*C(0,0,0);ST(1)=(-1.0)*U(0,0,0);ST(0)=(-1.0)*U(0,0,1);}
  }
static void r_e10_s17(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+1],0,offs_[m*2+0]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(z=lo2;z<=hi2;z+=1){ST(1)=(-1.0)*U(-1,0,0);ST(0)=(-1.0)*U(0,0,0);ST(3)=3.0*V(0,0,0);ST(2)=3.0*V(0,0,1);}
  }
static void r_e10_s18(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1+1)+((z+dk)-(lo2-gr-xl2)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(0,offs_[m*2+1],offs_[m*2+0]);return s;};(void)DOT;
  for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(4)=3.0*C(0,0,0);ST(5)=3.0*C(0,0,1);ST(1)=3.0*U(0,-1,0);ST(0)=3.0*U(0,0,0);ST(3)=a*V(0,0,-1);ST(2)=a*V(0,0,0);}
  }
static void r_e10_s19(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(0,offs_[m*2+0],offs_[m*2+1]);return s;};(void)DOT;
  for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(1)=(-1.0)*U(0,0,-1);ST(0)=(-1.0)*U(0,0,0);ST(4)=a*C(0,0,0);ST(5)=a*C(0,1,0);ST(3)=3.0*V(0,0,0);ST(2)=3.0*V(0,1,0);}
  }
static void r_e10_s20(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1+1)+((y+dj)-(lo1-gu-xl1))))*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(0,offs_[m*2+0],offs_[m*2+1]);return s;};(void)DOT;
  for(y=lo1;y<=hi1;y+=1)for(z=lo2;z<=hi2;z+=1){ST(2)=3.0*V(0,0,0);ST(3)=3.0*V(0,0,1);ST(0)=(-1.0)*U(0,-1,0);ST(1)=(-1.0)*U(0,0,0);}
  }
static void r_e10_s21(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*1+0],0,0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1){ST(2)=a*V(-1,0,0);ST(3)=a*V(0,0,0);ST(1)=3.0*U(0,0,0);ST(0)=3.0*U(1,0,0);}
  }
static void r_e10_h0(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((0)*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*2+0],offs_[m*2+1],0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1)for(y=lo1;y<=hi1;y+=1){ST(0)=U(0,0,0)*(ST(1)+V(0,0,0));}
  }
static void r_e10_h1(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gs+yh2-(lo2-gs-yl2)+1)+((z+dk)-(lo2-gs-yl2))))*(hi1+gs+yh1-(lo1-gs-yl1)+1)+((y+dj)-(lo1-gs-yl1))))*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gu+xh2-(lo2-gu-xl2)+1)+((z+dk)-(lo2-gu-xl2))))*(hi1+gu+xh1-(lo1-gu-xl1)+1)+((y+dj)-(lo1-gu-xl1))))*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gv-(lo2-gv)+1)+((z+dk)-(lo2-gv))))*(hi1+gv-(lo1-gv)+1)+((y+dj)-(lo1-gv))))*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gc-(lo2-gc)+1)+((z+dk)-(lo2-gc))))*(hi1+gc-(lo1-gc)+1)+((y+dj)-(lo1-gc))))*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+yh2-(lo2-gr-yl2)+1)+((z+dk)-(lo2-gr-yl2))))*(hi1+gr+yh1-(lo1-gr-yl1)+1)+((y+dj)-(lo1-gr-yl1))))*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((((((0)*(hi2+gr+xh2-(lo2-gr-xl2)+1)+((z+dk)-(lo2-gr-xl2))))*(hi1+gr+xh1-(lo1-gr-xl1)+1)+((y+dj)-(lo1-gr-xl1))))*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*3+0],offs_[m*3+1],offs_[m*3+2]);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=s0)for(y=lo1;y<=hi1;y+=s1)for(z=lo2;z<=hi2;z+=s2){ST(2)=(U(0,0,0)-3.0)*(C(0,0,0)+(ST(1)*V(0,0,0)));}
  }
static void r_e10_h2(void** A) {
  const long lo0 = *(int*)A[0]; (void)lo0;
  const long hi0 = *(int*)A[1]; (void)hi0;
  const long lo1 = *(int*)A[2]; (void)lo1;
  const long hi1 = *(int*)A[3]; (void)hi1;
  const long lo2 = *(int*)A[4]; (void)lo2;
  const long hi2 = *(int*)A[5]; (void)hi2;
  const long w = *(int*)A[6]; (void)w;
  const long w0 = *(int*)A[7]; (void)w0;
  const long s0 = *(int*)A[8]; (void)s0;
  const long s1 = *(int*)A[9]; (void)s1;
  const long s2 = *(int*)A[10]; (void)s2;
  const long gs = *(int*)A[11]; (void)gs;
  const long gu = *(int*)A[12]; (void)gu;
  const long gv = *(int*)A[13]; (void)gv;
  const long gc = *(int*)A[14]; (void)gc;
  const long gr = *(int*)A[15]; (void)gr;
  const long xl0 = *(int*)A[16]; (void)xl0;
  const long xh0 = *(int*)A[17]; (void)xh0;
  const long xl1 = *(int*)A[18]; (void)xl1;
  const long xh1 = *(int*)A[19]; (void)xh1;
  const long xl2 = *(int*)A[20]; (void)xl2;
  const long xh2 = *(int*)A[21]; (void)xh2;
  const long yl0 = *(int*)A[22]; (void)yl0;
  const long yh0 = *(int*)A[23]; (void)yh0;
  const long yl1 = *(int*)A[24]; (void)yl1;
  const long yh1 = *(int*)A[25]; (void)yh1;
  const long yl2 = *(int*)A[26]; (void)yl2;
  const long yh2 = *(int*)A[27]; (void)yh2;
  const long n1 = *(int*)A[28]; (void)n1;
  const long n2 = *(int*)A[29]; (void)n2;
  const double a = *(double*)A[30]; (void)a;
  const double b = *(double*)A[31]; (void)b;
  const double h0 = *(double*)A[32]; (void)h0;
  const double h1 = *(double*)A[33]; (void)h1;
  const double h2 = *(double*)A[34]; (void)h2;
  int* offs_ = (int*)A[35]; (void)offs_;
  double* st_ = (double*)A[36]; (void)st_;
  double* ti_ = (double*)A[37]; (void)ti_;
  double* u_ = (double*)A[38]; (void)u_;
  double* v_ = (double*)A[39]; (void)v_;
  double* c_ = (double*)A[40]; (void)c_;
  double* r_ = (double*)A[41]; (void)r_;
  double* q_ = (double*)A[42]; (void)q_;
  long x=0,y=0,z=0;
  auto I_st=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto ST=[&](long m)->double&{return st_[I_st(0,0,0)*w+m];};(void)ST;
  auto I_ti=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gs+yh0-(lo0-gs-yl0)+1)+((x+di)-(lo0-gs-yl0)));};
  auto TI=[&](long m)->double&{return ti_[I_ti(0,0,0)*w+m];};(void)TI;
  auto I_u=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gu+xh0-(lo0-gu-xl0)+1)+((x+di)-(lo0-gu-xl0)));};
  auto U=[&](long di,long dj,long dk)->double&{return u_[I_u(di,dj,dk)];};(void)U;
  auto I_v=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gv-(lo0-gv)+1)+((x+di)-(lo0-gv)));};
  auto V=[&](long di,long dj,long dk)->double&{return v_[I_v(di,dj,dk)];};(void)V;
  auto I_c=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gc-(lo0-gc)+1)+((x+di)-(lo0-gc)));};
  auto C=[&](long di,long dj,long dk)->double&{return c_[I_c(di,dj,dk)];};(void)C;
  auto I_r=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+yh0-(lo0-gr-yl0)+1)+((x+di)-(lo0-gr-yl0)));};
  auto R=[&](long di,long dj,long dk)->double&{return r_[I_r(di,dj,dk)];};(void)R;
  auto I_q=[&](long di,long dj,long dk)->long{(void)di;(void)dj;(void)dk;return ((0)*(hi0+gr+xh0-(lo0-gr-xl0)+1)+((x+di)-(lo0-gr-xl0)));};
  auto Q=[&](long di,long dj,long dk)->double&{return q_[I_q(di,dj,dk)];};(void)Q;
  auto DOT=[&]{double s=0;for(long m=0;m<w;m++)s+=TI(m)*U(offs_[m*1+0],0,0);return s;};(void)DOT;
  for(x=lo0;x<=hi0;x+=1){ST(0)=ST(1)+ST(2);ST(1)=ST(0)*U(0,0,0);ST(2)=ST(1)-V(0,0,0);}
  }
struct Reg { Reg() {
  sim_register_harness("e10_00", 0, 1, r_e10_00);
  sim_register_harness("e10_01", 0, 1, r_e10_01);
  sim_register_harness("e10_02", 0, 1, r_e10_02);
  sim_register_harness("e10_03", 0, 1, r_e10_03);
  sim_register_harness("e10_04", 0, 1, r_e10_04);
  sim_register_harness("e10_05", 0, 1, r_e10_05);
  sim_register_harness("e10_06", 0, 1, r_e10_06);
  sim_register_harness("e10_07", 0, 1, r_e10_07);
  sim_register_harness("e10_08", 0, 1, r_e10_08);
  sim_register_harness("e10_09", 0, 1, r_e10_09);
  sim_register_harness("e10_10", 0, 1, r_e10_10);
  sim_register_harness("e10_11", 0, 1, r_e10_11);
  sim_register_harness("e10_12", 0, 1, r_e10_12);
  sim_register_harness("e10_13", 0, 1, r_e10_13);
  sim_register_harness("e10_14", 0, 1, r_e10_14);
  sim_register_harness("e10_15", 0, 1, r_e10_15);
  sim_register_harness("e10_16", 0, 1, r_e10_16);
  sim_register_harness("e10_17", 0, 1, r_e10_17);
  sim_register_harness("e10_18", 0, 1, r_e10_18);
  sim_register_harness("e10_19", 0, 1, r_e10_19);
  sim_register_harness("e10_20", 0, 1, r_e10_20);
  sim_register_harness("e10_21", 0, 1, r_e10_21);
  sim_register_harness("e10_22", 0, 1, r_e10_22);
  sim_register_harness("e10_23", 0, 1, r_e10_23);
  sim_register_harness("e10_24", 0, 1, r_e10_24);
  sim_register_harness("e10_25", 0, 1, r_e10_25);
  sim_register_harness("e10_26", 0, 1, r_e10_26);
  sim_register_harness("e10_27", 0, 1, r_e10_27);
  sim_register_harness("e10_28", 0, 1, r_e10_28);
  sim_register_harness("e10_29", 0, 1, r_e10_29);
  sim_register_harness("e10_30", 0, 1, r_e10_30);
  sim_register_harness("e10_31", 0, 1, r_e10_31);
  sim_register_harness("e10_32", 0, 1, r_e10_32);
  sim_register_harness("e10_33", 0, 1, r_e10_33);
  sim_register_harness("e10_34", 0, 1, r_e10_34);
  sim_register_harness("e10_35", 0, 1, r_e10_35);
  sim_register_harness("e10_36", 0, 1, r_e10_36);
  sim_register_harness("e10_37", 0, 1, r_e10_37);
  sim_register_harness("e10_38", 0, 1, r_e10_38);
  sim_register_harness("e10_s00", 0, 1, r_e10_s00);
  sim_register_harness("e10_s01", 0, 1, r_e10_s01);
  sim_register_harness("e10_s02", 0, 1, r_e10_s02);
  sim_register_harness("e10_s03", 0, 1, r_e10_s03);
  sim_register_harness("e10_s04", 0, 1, r_e10_s04);
  sim_register_harness("e10_s05", 0, 1, r_e10_s05);
  sim_register_harness("e10_s06", 0, 1, r_e10_s06);
  sim_register_harness("e10_s07", 0, 1, r_e10_s07);
  sim_register_harness("e10_s08", 0, 1, r_e10_s08);
  sim_register_harness("e10_s09", 0, 1, r_e10_s09);
  sim_register_harness("e10_s10", 0, 1, r_e10_s10);
  sim_register_harness("e10_s11", 0, 1, r_e10_s11);
  sim_register_harness("e10_s12", 0, 1, r_e10_s12);
  sim_register_harness("e10_s13", 0, 1, r_e10_s13);
  sim_register_harness("e10_s14", 0, 1, r_e10_s14);
  sim_register_harness("e10_s15", 0, 1, r_e10_s15);
  sim_register_harness("e10_s16", 0, 1, r_e10_s16);
  sim_register_harness("e10_s17", 0, 1, r_e10_s17);
  sim_register_harness("e10_s18", 0, 1, r_e10_s18);
  sim_register_harness("e10_s19", 0, 1, r_e10_s19);
  sim_register_harness("e10_s20", 0, 1, r_e10_s20);
  sim_register_harness("e10_s21", 0, 1, r_e10_s21);
  sim_register_harness("e10_h0", 0, 1, r_e10_h0);
  sim_register_harness("e10_h1", 0, 1, r_e10_h1);
  sim_register_harness("e10_h2", 0, 1, r_e10_h2);
} } reg;
}

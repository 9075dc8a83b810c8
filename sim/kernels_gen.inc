// generated by tools/gen_table.py from ref/*.f; committed, not rebuilt by checks
static const ArgD A0[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"i",'i',0,0},{"stencilsize",'i',0,0},{"offsets",'I',2,0},{"stencil",'D',2,0},{"a",'d',0,0},{"b",'d',0,0},{"fgcw",'i',0,0},{"f",'D',1,0},{"ugcw",'i',0,0},{"u",'D',1,0},{"rgcw",'i',0,0},{"r",'D',1,1}};
static void D0(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[3];break;case 5:o[0][0]=1;o[0][1]=v[3];o[1][0]=v[0];o[1][1]=v[1];break;case 9:o[0][0]=v[0]-v[8];o[0][1]=v[1]+v[8];break;case 11:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 13:o[0][0]=v[0]-v[12];o[0][1]=v[1]+v[12];break;}}
static const ArgD A1[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"stencilsize",'i',0,0},{"offsets",'I',2,0},{"stencil",'D',2,0},{"a",'d',0,0},{"b",'d',0,0},{"fgcw",'i',0,0},{"f",'D',1,0},{"ugcw",'i',0,0},{"u",'D',1,0},{"rgcw",'i',0,0},{"r",'D',1,1}};
static void D1(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 3:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[2];break;case 4:o[0][0]=1;o[0][1]=v[2];o[1][0]=v[0];o[1][1]=v[1];break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];break;case 12:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;}}
static const ArgD A2[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"i",'i',0,0},{"j",'i',0,0},{"stencilsize",'i',0,0},{"offsets",'I',2,0},{"stencil",'D',3,0},{"a",'d',0,0},{"b",'d',0,0},{"fgcw",'i',0,0},{"f",'D',2,0},{"ugcw",'i',0,0},{"u",'D',2,0},{"rgcw",'i',0,0},{"r",'D',2,1}};
static void D2(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 8:o[0][0]=1;o[0][1]=v[6];o[1][0]=v[0];o[1][1]=v[1];o[2][0]=v[2];o[2][1]=v[3];break;case 12:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 14:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];break;case 16:o[0][0]=v[0]-v[15];o[0][1]=v[1]+v[15];o[1][0]=v[2]-v[15];o[1][1]=v[3]+v[15];break;}}
static const ArgD A3[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"stencilsize",'i',0,0},{"offsets",'I',2,0},{"stencil",'D',3,0},{"a",'d',0,0},{"b",'d',0,0},{"fgcw",'i',0,0},{"f",'D',2,0},{"ugcw",'i',0,0},{"u",'D',2,0},{"rgcw",'i',0,0},{"r",'D',2,1}};
static void D3(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 5:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[4];break;case 6:o[0][0]=1;o[0][1]=v[4];o[1][0]=v[0];o[1][1]=v[1];o[2][0]=v[2];o[2][1]=v[3];break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];o[1][0]=v[2]-v[9];o[1][1]=v[3]+v[9];break;case 12:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 14:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];break;}}
static const ArgD A4[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"i",'i',0,0},{"j",'i',0,0},{"k",'i',0,0},{"stencilsize",'i',0,0},{"offsets",'I',2,0},{"stencil",'D',4,0},{"a",'d',0,0},{"b",'d',0,0},{"fgcw",'i',0,0},{"f",'D',3,0},{"ugcw",'i',0,0},{"u",'D',3,0},{"rgcw",'i',0,0},{"r",'D',3,1}};
static void D4(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 10:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[9];break;case 11:o[0][0]=1;o[0][1]=v[9];o[1][0]=v[0];o[1][1]=v[1];o[2][0]=v[2];o[2][1]=v[3];o[3][0]=v[4];o[3][1]=v[5];break;case 15:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];o[2][0]=v[4]-v[14];o[2][1]=v[5]+v[14];break;case 17:o[0][0]=v[0]-v[16];o[0][1]=v[1]+v[16];o[1][0]=v[2]-v[16];o[1][1]=v[3]+v[16];o[2][0]=v[4]-v[16];o[2][1]=v[5]+v[16];break;case 19:o[0][0]=v[0]-v[18];o[0][1]=v[1]+v[18];o[1][0]=v[2]-v[18];o[1][1]=v[3]+v[18];o[2][0]=v[4]-v[18];o[2][1]=v[5]+v[18];break;}}
static const ArgD A5[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"stencilsize",'i',0,0},{"offsets",'I',2,0},{"stencil",'D',4,0},{"a",'d',0,0},{"b",'d',0,0},{"fgcw",'i',0,0},{"f",'D',3,0},{"ugcw",'i',0,0},{"u",'D',3,0},{"rgcw",'i',0,0},{"r",'D',3,1}};
static void D5(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 8:o[0][0]=1;o[0][1]=v[6];o[1][0]=v[0];o[1][1]=v[1];o[2][0]=v[2];o[2][1]=v[3];o[3][0]=v[4];o[3][1]=v[5];break;case 12:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 14:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];o[2][0]=v[4]-v[13];o[2][1]=v[5]+v[13];break;case 16:o[0][0]=v[0]-v[15];o[0][1]=v[1]+v[15];o[1][0]=v[2]-v[15];o[1][1]=v[3]+v[15];o[2][0]=v[4]-v[15];o[2][1]=v[5]+v[15];break;}}
static const ArgD A6[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"side",'i',0,0},{"stencilsize",'i',0,0},{"offset",'I',2,0},{"stencil",'D',2,0},{"gcw",'i',0,0},{"u",'D',1,0},{"rhs",'D',1,1}};
static void D6(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=1-1;o[1][0]=0;o[1][1]=v[5]-1;break;case 7:o[0][0]=0;o[0][1]=v[5]-1;o[1][0]=v[0];o[1][1]=v[1];break;case 9:o[0][0]=v[0]-v[8];o[0][1]=v[1]+v[8];break;case 10:o[0][0]=v[0];o[0][1]=v[1];break;}}
static const ArgD A7[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"noffsets",'i',0,0},{"offset",'I',2,0},{"stencilsize",'i',0,0},{"stencil",'D',2,0},{"ugcw",'i',0,0},{"u",'D',1,0},{"fgcw",'i',0,0},{"f",'D',1,1}};
static void D7(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 3:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[2];break;case 5:o[0][0]=1;o[0][1]=v[4];o[1][0]=v[0];o[1][1]=v[1];break;case 7:o[0][0]=v[0]-v[6];o[0][1]=v[1]+v[6];break;case 9:o[0][0]=v[0]-v[8];o[0][1]=v[1]+v[8];break;}}
static const ArgD A8[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"stencilsize",'i',0,0},{"offset",'I',2,0},{"stencil",'D',3,0},{"gcw",'i',0,0},{"u",'D',2,0},{"rhs",'D',2,1}};
static void D8(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 11:o[0][0]=0;o[0][1]=2-1;o[1][0]=0;o[1][1]=v[10]-1;break;case 12:o[0][0]=0;o[0][1]=v[10]-1;o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;case 14:o[0][0]=v[0]-v[13];o[0][1]=v[2]+v[13];o[1][0]=v[1]-v[13];o[1][1]=v[3]+v[13];break;case 15:o[0][0]=v[0];o[0][1]=v[2];o[1][0]=v[1];o[1][1]=v[3];break;}}
static const ArgD A9[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"noffsets",'i',0,0},{"offset",'I',2,0},{"stencilsize",'i',0,0},{"stencil",'D',3,0},{"ugcw",'i',0,0},{"u",'D',2,0},{"fgcw",'i',0,0},{"f",'D',2,1}};
static void D9(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 5:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[4];break;case 7:o[0][0]=1;o[0][1]=v[6];o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;case 9:o[0][0]=v[0]-v[8];o[0][1]=v[2]+v[8];o[1][0]=v[1]-v[8];o[1][1]=v[3]+v[8];break;case 11:o[0][0]=v[0]-v[10];o[0][1]=v[2]+v[10];o[1][0]=v[1]-v[10];o[1][1]=v[3]+v[10];break;}}
static const ArgD A10[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"stencilsize",'i',0,0},{"offset",'I',2,0},{"stencil",'D',4,0},{"gcw",'i',0,0},{"u",'D',3,0},{"rhs",'D',3,1}};
static void D10(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 15:o[0][0]=0;o[0][1]=3-1;o[1][0]=0;o[1][1]=v[14]-1;break;case 16:o[0][0]=0;o[0][1]=v[14]-1;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];o[3][0]=v[2];o[3][1]=v[5];break;case 18:o[0][0]=v[0]-v[17];o[0][1]=v[3]+v[17];o[1][0]=v[1]-v[17];o[1][1]=v[4]+v[17];o[2][0]=v[2]-v[17];o[2][1]=v[5]+v[17];break;case 19:o[0][0]=v[0];o[0][1]=v[3];o[1][0]=v[1];o[1][1]=v[4];o[2][0]=v[2];o[2][1]=v[5];break;}}
static const ArgD A11[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"stencil",'D',1,0},{"fgcw",'i',0,0},{"f",'D',1,0},{"ugcw",'i',0,0},{"u",'D',1,1}};
static void D11(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 2:o[0][0]=v[0];o[0][1]=v[1];break;case 4:o[0][0]=v[0]-v[3];o[0][1]=v[1]+v[3];break;case 6:o[0][0]=v[0]-v[5];o[0][1]=v[1]+v[5];break;}}
static const ArgD A12[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"a",'D',2,0},{"fgcw",'i',0,0},{"f0",'D',1,0},{"f1",'D',1,0},{"ugcw",'i',0,0},{"u0",'D',1,1},{"u1",'D',1,1}};
static void D12(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 2:o[0][0]=0;o[0][1]=3;o[1][0]=v[0];o[1][1]=v[1];break;case 4:o[0][0]=v[0]-v[3];o[0][1]=v[1]+v[3];break;case 5:o[0][0]=v[0]-v[3];o[0][1]=v[1]+v[3];break;case 7:o[0][0]=v[0]-v[6];o[0][1]=v[1]+v[6];break;case 8:o[0][0]=v[0]-v[6];o[0][1]=v[1]+v[6];break;}}
static const ArgD A13[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"stencil",'D',2,0},{"fgcw",'i',0,0},{"f",'D',2,0},{"ugcw",'i',0,0},{"u",'D',2,1}};
static void D13(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=v[0];o[0][1]=v[1];o[1][0]=v[2];o[1][1]=v[3];break;case 6:o[0][0]=v[0]-v[5];o[0][1]=v[1]+v[5];o[1][0]=v[2]-v[5];o[1][1]=v[3]+v[5];break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];o[1][0]=v[2]-v[7];o[1][1]=v[3]+v[7];break;}}
static const ArgD A14[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"a",'D',3,0},{"fgcw",'i',0,0},{"f0",'D',2,0},{"f1",'D',2,0},{"ugcw",'i',0,0},{"u0",'D',2,1},{"u1",'D',2,1}};
static void D14(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=3;o[1][0]=v[0];o[1][1]=v[1];o[2][0]=v[2];o[2][1]=v[3];break;case 6:o[0][0]=v[0]-v[5];o[0][1]=v[1]+v[5];o[1][0]=v[2]-v[5];o[1][1]=v[3]+v[5];break;case 7:o[0][0]=v[0]-v[5];o[0][1]=v[1]+v[5];o[1][0]=v[2]-v[5];o[1][1]=v[3]+v[5];break;case 9:o[0][0]=v[0]-v[8];o[0][1]=v[1]+v[8];o[1][0]=v[2]-v[8];o[1][1]=v[3]+v[8];break;case 10:o[0][0]=v[0]-v[8];o[0][1]=v[1]+v[8];o[1][0]=v[2]-v[8];o[1][1]=v[3]+v[8];break;}}
static const ArgD A15[]={{"a",'D',2,1},{"stencilsize",'i',0,0},{"stencil",'D',4,0},{"offset",'I',2,0},{"bsizex",'i',0,0},{"bsizey",'i',0,0},{"bsizez",'i',0,0}};
static void D15(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 0:o[0][0]=0;o[0][1]=v[4]*v[5]*v[6]-1;o[1][0]=0;o[1][1]=v[4]*v[5]*v[6]-1;break;case 2:o[0][0]=0;o[0][1]=v[1]-1;o[1][0]=0;o[1][1]=v[4]-1;o[2][0]=0;o[2][1]=v[5]-1;o[3][0]=0;o[3][1]=v[6]-1;break;case 3:o[0][0]=0;o[0][1]=3-1;o[1][0]=0;o[1][1]=v[1]-1;break;}}
static const ArgD A16[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"stencilsize",'i',0,0},{"offset",'I',2,0},{"stencil",'D',4,0},{"flo0",'i',0,0},{"fhi0",'i',0,0},{"flo1",'i',0,0},{"fhi1",'i',0,0},{"flo2",'i',0,0},{"fhi2",'i',0,0},{"f",'D',3,0},{"ulo0",'i',0,0},{"uhi0",'i',0,0},{"ulo1",'i',0,0},{"uhi1",'i',0,0},{"ulo2",'i',0,0},{"uhi2",'i',0,0},{"u",'D',3,1},{"bdispx",'I',1,0},{"bnumx",'i',0,0},{"bsizex",'i',0,0},{"bdispy",'I',1,0},{"bnumy",'i',0,0},{"bsizey",'i',0,0},{"bdispz",'I',1,0},{"bnumz",'i',0,0},{"bsizez",'i',0,0}};
static void D16(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=3-1;o[1][0]=0;o[1][1]=v[6]-1;break;case 8:o[0][0]=0;o[0][1]=v[6]-1;o[1][0]=v[0];o[1][1]=v[1];o[2][0]=v[2];o[2][1]=v[3];o[3][0]=v[4];o[3][1]=v[5];break;case 15:o[0][0]=v[9];o[0][1]=v[10];o[1][0]=v[11];o[1][1]=v[12];o[2][0]=v[13];o[2][1]=v[14];break;case 22:o[0][0]=v[16];o[0][1]=v[17];o[1][0]=v[18];o[1][1]=v[19];o[2][0]=v[20];o[2][1]=v[21];break;case 23:o[0][0]=0;o[0][1]=v[24]-1;break;case 26:o[0][0]=0;o[0][1]=v[27]-1;break;case 29:o[0][0]=0;o[0][1]=v[30]-1;break;}}
static const ArgD A17[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"agcw",'i',0,0},{"acoef",'D',1,0},{"ugcw",'i',0,0},{"u",'D',1,0},{"fgcw",'i',0,0},{"f",'D',1,0},{"flux0",'D',1,0},{"rgcw",'i',0,0},{"res",'D',1,1}};
static void D17(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=1-1;break;case 6:o[0][0]=v[0]-v[5];o[0][1]=v[1]+v[5];break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];break;case 11:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 13:o[0][0]=v[0]-v[12];o[0][1]=v[1]+v[12];break;}}
static const ArgD A18[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"ugcw",'i',0,0},{"u",'D',1,0},{"fgcw",'i',0,0},{"f",'D',1,0},{"flux0",'D',1,0},{"rgcw",'i',0,0},{"res",'D',1,1}};
static void D18(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=1-1;break;case 6:o[0][0]=v[0]-v[5];o[0][1]=v[1]+v[5];break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];break;case 9:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 11:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;}}
static const ArgD A19[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"fgcw",'i',0,0},{"f",'D',1,0},{"flux0",'D',1,0},{"rgcw",'i',0,0},{"res",'D',1,1}};
static void D19(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 3:o[0][0]=0;o[0][1]=1-1;break;case 5:o[0][0]=v[0]-v[4];o[0][1]=v[1]+v[4];break;case 6:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];break;}}
static const ArgD A20[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"agcw",'i',0,0},{"acoef",'D',1,0},{"ugcw",'i',0,0},{"u",'D',1,0},{"flux0",'D',1,0},{"rgcw",'i',0,0},{"res",'D',1,1}};
static void D20(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=1-1;break;case 6:o[0][0]=v[0]-v[5];o[0][1]=v[1]+v[5];break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];break;case 9:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 11:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;}}
static const ArgD A21[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"ugcw",'i',0,0},{"u",'D',1,0},{"flux0",'D',1,0},{"rgcw",'i',0,0},{"res",'D',1,1}};
static void D21(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=1-1;break;case 6:o[0][0]=v[0]-v[5];o[0][1]=v[1]+v[5];break;case 7:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 9:o[0][0]=v[0]-v[8];o[0][1]=v[1]+v[8];break;}}
static const ArgD A22[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"flux0",'D',1,0},{"rgcw",'i',0,0},{"res",'D',1,1}};
static void D22(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 3:o[0][0]=0;o[0][1]=1-1;break;case 4:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 6:o[0][0]=v[0]-v[5];o[0][1]=v[1]+v[5];break;}}
static const ArgD A23[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"agcw",'i',0,0},{"acoef",'D',2,0},{"ugcw",'i',0,0},{"u",'D',2,0},{"fgcw",'i',0,0},{"f",'D',2,0},{"flux0",'D',2,0},{"flux1",'D',2,0},{"rgcw",'i',0,0},{"res",'D',2,1}};
static void D23(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=1;break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];o[1][0]=v[2]-v[7];o[1][1]=v[3]+v[7];break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];o[1][0]=v[2]-v[9];o[1][1]=v[3]+v[9];break;case 12:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 13:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];break;case 14:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[1];break;case 16:o[0][0]=v[0]-v[15];o[0][1]=v[1]+v[15];o[1][0]=v[2]-v[15];o[1][1]=v[3]+v[15];break;}}
static const ArgD A24[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"ugcw",'i',0,0},{"u",'D',2,0},{"fgcw",'i',0,0},{"f",'D',2,0},{"flux0",'D',2,0},{"flux1",'D',2,0},{"rgcw",'i',0,0},{"res",'D',2,1}};
static void D24(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=1;break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];o[1][0]=v[2]-v[7];o[1][1]=v[3]+v[7];break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];o[1][0]=v[2]-v[9];o[1][1]=v[3]+v[9];break;case 11:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];break;case 12:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[1];break;case 14:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];break;}}
static const ArgD A25[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"fgcw",'i',0,0},{"f",'D',2,0},{"flux0",'D',2,0},{"flux1",'D',2,0},{"rgcw",'i',0,0},{"res",'D',2,1}};
static void D25(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 5:o[0][0]=0;o[0][1]=1;break;case 7:o[0][0]=v[0]-v[6];o[0][1]=v[1]+v[6];o[1][0]=v[2]-v[6];o[1][1]=v[3]+v[6];break;case 8:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];break;case 9:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[1];break;case 11:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;}}
static const ArgD A26[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"agcw",'i',0,0},{"acoef",'D',2,0},{"ugcw",'i',0,0},{"u",'D',2,0},{"flux0",'D',2,0},{"flux1",'D',2,0},{"rgcw",'i',0,0},{"res",'D',2,1}};
static void D26(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=1;break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];o[1][0]=v[2]-v[7];o[1][1]=v[3]+v[7];break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];o[1][0]=v[2]-v[9];o[1][1]=v[3]+v[9];break;case 11:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];break;case 12:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[1];break;case 14:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];break;}}
static const ArgD A27[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"ugcw",'i',0,0},{"u",'D',2,0},{"flux0",'D',2,0},{"flux1",'D',2,0},{"rgcw",'i',0,0},{"res",'D',2,1}};
static void D27(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=1;break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];o[1][0]=v[2]-v[7];o[1][1]=v[3]+v[7];break;case 9:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];break;case 10:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[1];break;case 12:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;}}
static const ArgD A28[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"flux0",'D',2,0},{"flux1",'D',2,0},{"rgcw",'i',0,0},{"res",'D',2,1}};
static void D28(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 5:o[0][0]=0;o[0][1]=1;break;case 6:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];break;case 7:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[1];break;case 9:o[0][0]=v[0]-v[8];o[0][1]=v[1]+v[8];o[1][0]=v[2]-v[8];o[1][1]=v[3]+v[8];break;}}
static const ArgD A29[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"agcw",'i',0,0},{"acoef",'D',3,0},{"ugcw",'i',0,0},{"u",'D',3,0},{"fgcw",'i',0,0},{"f",'D',3,0},{"flux0",'D',3,0},{"flux1",'D',3,0},{"flux2",'D',3,0},{"rgcw",'i',0,0},{"res",'D',3,1}};
static void D29(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 8:o[0][0]=0;o[0][1]=3-1;break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];o[1][0]=v[2]-v[9];o[1][1]=v[3]+v[9];o[2][0]=v[4]-v[9];o[2][1]=v[5]+v[9];break;case 12:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 14:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];o[2][0]=v[4]-v[13];o[2][1]=v[5]+v[13];break;case 15:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];o[2][0]=v[4];o[2][1]=v[5];break;case 16:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[4];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[1];break;case 17:o[0][0]=v[4];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[1];o[2][0]=v[2];o[2][1]=v[3];break;case 19:o[0][0]=v[0]-v[18];o[0][1]=v[1]+v[18];o[1][0]=v[2]-v[18];o[1][1]=v[3]+v[18];o[2][0]=v[4]-v[18];o[2][1]=v[5]+v[18];break;}}
static const ArgD A30[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"ugcw",'i',0,0},{"u",'D',3,0},{"fgcw",'i',0,0},{"f",'D',3,0},{"flux0",'D',3,0},{"flux1",'D',3,0},{"flux2",'D',3,0},{"rgcw",'i',0,0},{"res",'D',3,1}};
static void D30(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 8:o[0][0]=0;o[0][1]=3-1;break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];o[1][0]=v[2]-v[9];o[1][1]=v[3]+v[9];o[2][0]=v[4]-v[9];o[2][1]=v[5]+v[9];break;case 12:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 13:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];o[2][0]=v[4];o[2][1]=v[5];break;case 14:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[4];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[1];break;case 15:o[0][0]=v[4];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[1];o[2][0]=v[2];o[2][1]=v[3];break;case 17:o[0][0]=v[0]-v[16];o[0][1]=v[1]+v[16];o[1][0]=v[2]-v[16];o[1][1]=v[3]+v[16];o[2][0]=v[4]-v[16];o[2][1]=v[5]+v[16];break;}}
static const ArgD A31[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"fgcw",'i',0,0},{"f",'D',3,0},{"flux0",'D',3,0},{"flux1",'D',3,0},{"flux2",'D',3,0},{"rgcw",'i',0,0},{"res",'D',3,1}};
static void D31(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=3-1;break;case 9:o[0][0]=v[0]-v[8];o[0][1]=v[1]+v[8];o[1][0]=v[2]-v[8];o[1][1]=v[3]+v[8];o[2][0]=v[4]-v[8];o[2][1]=v[5]+v[8];break;case 10:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];o[2][0]=v[4];o[2][1]=v[5];break;case 11:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[4];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[1];break;case 12:o[0][0]=v[4];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[1];o[2][0]=v[2];o[2][1]=v[3];break;case 14:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];o[2][0]=v[4]-v[13];o[2][1]=v[5]+v[13];break;}}
static const ArgD A32[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"agcw",'i',0,0},{"acoef",'D',3,0},{"ugcw",'i',0,0},{"u",'D',3,0},{"flux0",'D',3,0},{"flux1",'D',3,0},{"flux2",'D',3,0},{"rgcw",'i',0,0},{"res",'D',3,1}};
static void D32(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 8:o[0][0]=0;o[0][1]=3-1;break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];o[1][0]=v[2]-v[9];o[1][1]=v[3]+v[9];o[2][0]=v[4]-v[9];o[2][1]=v[5]+v[9];break;case 12:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 13:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];o[2][0]=v[4];o[2][1]=v[5];break;case 14:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[4];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[1];break;case 15:o[0][0]=v[4];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[1];o[2][0]=v[2];o[2][1]=v[3];break;case 17:o[0][0]=v[0]-v[16];o[0][1]=v[1]+v[16];o[1][0]=v[2]-v[16];o[1][1]=v[3]+v[16];o[2][0]=v[4]-v[16];o[2][1]=v[5]+v[16];break;}}
static const ArgD A33[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"ugcw",'i',0,0},{"u",'D',3,0},{"flux0",'D',3,0},{"flux1",'D',3,0},{"flux2",'D',3,0},{"rgcw",'i',0,0},{"res",'D',3,1}};
static void D33(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 8:o[0][0]=0;o[0][1]=3-1;break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];o[1][0]=v[2]-v[9];o[1][1]=v[3]+v[9];o[2][0]=v[4]-v[9];o[2][1]=v[5]+v[9];break;case 11:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];o[2][0]=v[4];o[2][1]=v[5];break;case 12:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[4];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[1];break;case 13:o[0][0]=v[4];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[1];o[2][0]=v[2];o[2][1]=v[3];break;case 15:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];o[2][0]=v[4]-v[14];o[2][1]=v[5]+v[14];break;}}
static const ArgD A34[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"flux0",'D',3,0},{"flux1",'D',3,0},{"flux2",'D',3,0},{"rgcw",'i',0,0},{"res",'D',3,1}};
static void D34(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=3-1;break;case 8:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];o[2][0]=v[4];o[2][1]=v[5];break;case 9:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[4];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[1];break;case 10:o[0][0]=v[4];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[1];o[2][0]=v[2];o[2][1]=v[3];break;case 12:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;}}
static const ArgD A35[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"dx",'D',1,0},{"b0",'D',1,0},{"gcw",'i',0,0},{"u",'D',1,0},{"flux0",'D',1,1}};
static void D35(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 2:o[0][0]=0;o[0][1]=1-1;break;case 3:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 5:o[0][0]=v[0]-v[4];o[0][1]=v[1]+v[4];break;case 6:o[0][0]=v[0];o[0][1]=v[1]+1;break;}}
static const ArgD A36[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"dx",'D',1,0},{"gcw",'i',0,0},{"u",'D',1,0},{"flux0",'D',1,1}};
static void D36(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 2:o[0][0]=0;o[0][1]=1-1;break;case 4:o[0][0]=v[0]-v[3];o[0][1]=v[1]+v[3];break;case 5:o[0][0]=v[0];o[0][1]=v[1]+1;break;}}
static const ArgD A37[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"dx",'D',1,0},{"b0",'D',2,0},{"b1",'D',2,0},{"gcw",'i',0,0},{"u",'D',2,0},{"flux0",'D',2,1},{"flux1",'D',2,1}};
static void D37(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=1;break;case 5:o[0][0]=v[0];o[0][1]=v[2]+1;o[1][0]=v[1];o[1][1]=v[3];break;case 6:o[0][0]=v[1];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[2];break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[2]+v[7];o[1][0]=v[1]-v[7];o[1][1]=v[3]+v[7];break;case 9:o[0][0]=v[0];o[0][1]=v[2]+1;o[1][0]=v[1];o[1][1]=v[3];break;case 10:o[0][0]=v[1];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[2];break;}}
static const ArgD A38[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"dx",'D',1,0},{"gcw",'i',0,0},{"u",'D',2,0},{"flux0",'D',2,1},{"flux1",'D',2,1}};
static void D38(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=1;break;case 6:o[0][0]=v[0]-v[5];o[0][1]=v[2]+v[5];o[1][0]=v[1]-v[5];o[1][1]=v[3]+v[5];break;case 7:o[0][0]=v[0];o[0][1]=v[2]+1;o[1][0]=v[1];o[1][1]=v[3];break;case 8:o[0][0]=v[1];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[2];break;}}
static const ArgD A39[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"dx",'D',1,0},{"b0",'D',3,0},{"b1",'D',3,0},{"b2",'D',3,0},{"gcw",'i',0,0},{"u",'D',3,0},{"flux0",'D',3,1},{"flux1",'D',3,1},{"flux2",'D',3,1}};
static void D39(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=3-1;break;case 7:o[0][0]=v[0];o[0][1]=v[3]+1;o[1][0]=v[1];o[1][1]=v[4];o[2][0]=v[2];o[2][1]=v[5];break;case 8:o[0][0]=v[1];o[0][1]=v[4]+1;o[1][0]=v[2];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[3];break;case 9:o[0][0]=v[2];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];break;case 11:o[0][0]=v[0]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[1]-v[10];o[1][1]=v[4]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[5]+v[10];break;case 12:o[0][0]=v[0];o[0][1]=v[3]+1;o[1][0]=v[1];o[1][1]=v[4];o[2][0]=v[2];o[2][1]=v[5];break;case 13:o[0][0]=v[1];o[0][1]=v[4]+1;o[1][0]=v[2];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[3];break;case 14:o[0][0]=v[2];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];break;}}
static const ArgD A40[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"dx",'D',1,0},{"gcw",'i',0,0},{"u",'D',3,0},{"flux0",'D',3,1},{"flux1",'D',3,1},{"flux2",'D',3,1}};
static void D40(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=3-1;break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[3]+v[7];o[1][0]=v[1]-v[7];o[1][1]=v[4]+v[7];o[2][0]=v[2]-v[7];o[2][1]=v[5]+v[7];break;case 9:o[0][0]=v[0];o[0][1]=v[3]+1;o[1][0]=v[1];o[1][1]=v[4];o[2][0]=v[2];o[2][1]=v[5];break;case 10:o[0][0]=v[1];o[0][1]=v[4]+1;o[1][0]=v[2];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[3];break;case 11:o[0][0]=v[2];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];break;}}
static const ArgD A41[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"bilo0",'i',0,0},{"bihi0",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',1,0},{"sgcw",'i',0,0},{"stencil",'D',2,1}};
static void D41(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=1-1;break;case 6:o[0][0]=v[2];o[0][1]=v[3]+1;break;case 8:o[0][0]=0;o[0][1]=2;o[1][0]=v[0]-v[7];o[1][1]=v[1]+v[7];break;}}
static const ArgD A42[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"sgcw",'i',0,0},{"stencil",'D',2,1}};
static void D42(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 2:o[0][0]=0;o[0][1]=1-1;break;case 5:o[0][0]=0;o[0][1]=2;o[1][0]=v[0]-v[4];o[1][1]=v[1]+v[4];break;}}
static const ArgD A43[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"ailo0",'i',0,0},{"aihi0",'i',0,0},{"alpha",'d',0,0},{"a",'D',1,0},{"sgcw",'i',0,0},{"stencil",'D',2,1}};
static void D43(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 5:o[0][0]=v[2];o[0][1]=v[3];break;case 7:o[0][0]=0;o[0][1]=2;o[1][0]=v[0]-v[6];o[1][1]=v[1]+v[6];break;}}
static const ArgD A44[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"alpha",'d',0,0},{"sgcw",'i',0,0},{"stencil",'D',2,1}};
static void D44(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=2;o[1][0]=v[0]-v[3];o[1][1]=v[1]+v[3];break;}}
static const ArgD A45[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"sgcw",'i',0,0},{"stencil",'D',2,1}};
static void D45(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 3:o[0][0]=0;o[0][1]=2;o[1][0]=v[0]-v[2];o[1][1]=v[1]+v[2];break;}}
static const ArgD A46[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',1,0},{"sgcw",'i',0,0},{"stencil",'D',2,1}};
static void D46(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=1-1;break;case 9:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 11:o[0][0]=0;o[0][1]=2;o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;}}
static const ArgD A47[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"sgcw",'i',0,0},{"stencil",'D',2,1}};
static void D47(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=1-1;break;case 10:o[0][0]=0;o[0][1]=2;o[1][0]=v[0]-v[9];o[1][1]=v[1]+v[9];break;}}
static const ArgD A48[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"r",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',1,0},{"sgcw",'i',0,0},{"stencil",'D',2,1}};
static void D48(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=1-1;break;case 9:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 11:o[0][0]=0;o[0][1]=2;o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;}}
static const ArgD A49[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"r",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"sgcw",'i',0,0},{"stencil",'D',2,1}};
static void D49(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=1-1;break;case 10:o[0][0]=0;o[0][1]=2;o[1][0]=v[0]-v[9];o[1][1]=v[1]+v[9];break;}}
static const ArgD A50[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"dirfactor",'d',0,0},{"neufactor",'d',0,0},{"beta",'d',0,0},{"b0",'D',1,0},{"sgcw",'i',0,0},{"stencil",'D',2,1}};
static void D50(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=1-1;break;case 11:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 13:o[0][0]=0;o[0][1]=2;o[1][0]=v[0]-v[12];o[1][1]=v[1]+v[12];break;}}
static const ArgD A51[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"dirfactor",'d',0,0},{"neufactor",'d',0,0},{"beta",'d',0,0},{"sgcw",'i',0,0},{"stencil",'D',2,1}};
static void D51(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=1-1;break;case 12:o[0][0]=0;o[0][1]=2;o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;}}
static const ArgD A52[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"r",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"sgcw",'i',0,0},{"stencil",'D',2,1}};
static void D52(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 8:o[0][0]=0;o[0][1]=2;o[1][0]=v[0]-v[7];o[1][1]=v[1]+v[7];break;}}
static const ArgD A53[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"side",'i',0,0},{"sgcw",'i',0,0},{"stencil",'D',2,1}};
static void D53(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=2;o[1][0]=v[0]-v[5];o[1][1]=v[1]+v[5];break;}}
static const ArgD A54[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"side",'i',0,0},{"sgcw",'i',0,0},{"stencil",'D',2,0},{"gcw",'i',0,0},{"u",'D',1,0},{"rhs",'D',1,1}};
static void D54(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=2;o[1][0]=v[0]-v[5];o[1][1]=v[1]+v[5];break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];break;case 9:o[0][0]=v[0];o[0][1]=v[1];break;}}
static const ArgD A55[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"bilo0",'i',0,0},{"bilo1",'i',0,0},{"bihi0",'i',0,0},{"bihi1",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',2,0},{"b1",'D',2,0},{"sgcw",'i',0,0},{"stencil",'D',3,1}};
static void D55(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 8:o[0][0]=0;o[0][1]=2-1;break;case 10:o[0][0]=v[4];o[0][1]=v[6]+1;o[1][0]=v[5];o[1][1]=v[7];break;case 11:o[0][0]=v[5];o[0][1]=v[7]+1;o[1][0]=v[4];o[1][1]=v[6];break;case 13:o[0][0]=0;o[0][1]=4;o[1][0]=v[0]-v[12];o[1][1]=v[2]+v[12];o[2][0]=v[1]-v[12];o[2][1]=v[3]+v[12];break;}}
static const ArgD A56[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"sgcw",'i',0,0},{"stencil",'D',3,1}};
static void D56(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=2-1;break;case 7:o[0][0]=0;o[0][1]=4;o[1][0]=v[0]-v[6];o[1][1]=v[2]+v[6];o[2][0]=v[1]-v[6];o[2][1]=v[3]+v[6];break;}}
static const ArgD A57[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"ailo0",'i',0,0},{"ailo1",'i',0,0},{"aihi0",'i',0,0},{"aihi1",'i',0,0},{"alpha",'d',0,0},{"a",'D',2,0},{"sgcw",'i',0,0},{"stencil",'D',3,1}};
static void D57(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 9:o[0][0]=v[4];o[0][1]=v[6];o[1][0]=v[5];o[1][1]=v[7];break;case 11:o[0][0]=0;o[0][1]=4;o[1][0]=v[0]-v[10];o[1][1]=v[2]+v[10];o[2][0]=v[1]-v[10];o[2][1]=v[3]+v[10];break;}}
static const ArgD A58[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"alpha",'d',0,0},{"sgcw",'i',0,0},{"stencil",'D',3,1}};
static void D58(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=4;o[1][0]=v[0]-v[5];o[1][1]=v[2]+v[5];o[2][0]=v[1]-v[5];o[2][1]=v[3]+v[5];break;}}
static const ArgD A59[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"sgcw",'i',0,0},{"stencil",'D',3,1}};
static void D59(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 5:o[0][0]=0;o[0][1]=4;o[1][0]=v[0]-v[4];o[1][1]=v[2]+v[4];o[2][0]=v[1]-v[4];o[2][1]=v[3]+v[4];break;}}
static const ArgD A60[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',2,0},{"b1",'D',2,0},{"sgcw",'i',0,0},{"stencil",'D',3,1}};
static void D60(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 12:o[0][0]=0;o[0][1]=2-1;break;case 14:o[0][0]=v[0];o[0][1]=v[2]+1;o[1][0]=v[1];o[1][1]=v[3];break;case 15:o[0][0]=v[1];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[2];break;case 17:o[0][0]=0;o[0][1]=4;o[1][0]=v[0]-v[16];o[1][1]=v[2]+v[16];o[2][0]=v[1]-v[16];o[2][1]=v[3]+v[16];break;}}
static const ArgD A61[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"sgcw",'i',0,0},{"stencil",'D',3,1}};
static void D61(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 12:o[0][0]=0;o[0][1]=2-1;break;case 15:o[0][0]=0;o[0][1]=4;o[1][0]=v[0]-v[14];o[1][1]=v[2]+v[14];o[2][0]=v[1]-v[14];o[2][1]=v[3]+v[14];break;}}
static const ArgD A62[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"r",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',2,0},{"b1",'D',2,0},{"sgcw",'i',0,0},{"stencil",'D',3,1}};
static void D62(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 12:o[0][0]=0;o[0][1]=2-1;break;case 14:o[0][0]=v[0];o[0][1]=v[2]+1;o[1][0]=v[1];o[1][1]=v[3];break;case 15:o[0][0]=v[1];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[2];break;case 17:o[0][0]=0;o[0][1]=4;o[1][0]=v[0]-v[16];o[1][1]=v[2]+v[16];o[2][0]=v[1]-v[16];o[2][1]=v[3]+v[16];break;}}
static const ArgD A63[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"r",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"sgcw",'i',0,0},{"stencil",'D',3,1}};
static void D63(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 12:o[0][0]=0;o[0][1]=2-1;break;case 15:o[0][0]=0;o[0][1]=4;o[1][0]=v[0]-v[14];o[1][1]=v[2]+v[14];o[2][0]=v[1]-v[14];o[2][1]=v[3]+v[14];break;}}
static const ArgD A64[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"dirfactor",'d',0,0},{"neufactor",'d',0,0},{"beta",'d',0,0},{"b0",'D',2,0},{"b1",'D',2,0},{"sgcw",'i',0,0},{"stencil",'D',3,1}};
static void D64(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 12:o[0][0]=0;o[0][1]=2-1;break;case 16:o[0][0]=v[0];o[0][1]=v[2]+1;o[1][0]=v[1];o[1][1]=v[3];break;case 17:o[0][0]=v[1];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[2];break;case 19:o[0][0]=0;o[0][1]=4;o[1][0]=v[0]-v[18];o[1][1]=v[2]+v[18];o[2][0]=v[1]-v[18];o[2][1]=v[3]+v[18];break;}}
static const ArgD A65[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"dirfactor",'d',0,0},{"neufactor",'d',0,0},{"beta",'d',0,0},{"sgcw",'i',0,0},{"stencil",'D',3,1}};
static void D65(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 12:o[0][0]=0;o[0][1]=2-1;break;case 17:o[0][0]=0;o[0][1]=4;o[1][0]=v[0]-v[16];o[1][1]=v[2]+v[16];o[2][0]=v[1]-v[16];o[2][1]=v[3]+v[16];break;}}
static const ArgD A66[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"r",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"sgcw",'i',0,0},{"stencil",'D',3,1}};
static void D66(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 13:o[0][0]=0;o[0][1]=4;o[1][0]=v[0]-v[12];o[1][1]=v[2]+v[12];o[2][0]=v[1]-v[12];o[2][1]=v[3]+v[12];break;}}
static const ArgD A67[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"sgcw",'i',0,0},{"stencil",'D',3,1}};
static void D67(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 11:o[0][0]=0;o[0][1]=4;o[1][0]=v[0]-v[10];o[1][1]=v[2]+v[10];o[2][0]=v[1]-v[10];o[2][1]=v[3]+v[10];break;}}
static const ArgD A68[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"sgcw",'i',0,0},{"stencil",'D',3,0},{"gcw",'i',0,0},{"u",'D',2,0},{"rhs",'D',2,1}};
static void D68(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 11:o[0][0]=0;o[0][1]=4;o[1][0]=v[0]-v[10];o[1][1]=v[2]+v[10];o[2][0]=v[1]-v[10];o[2][1]=v[3]+v[10];break;case 13:o[0][0]=v[0]-v[12];o[0][1]=v[2]+v[12];o[1][0]=v[1]-v[12];o[1][1]=v[3]+v[12];break;case 14:o[0][0]=v[0];o[0][1]=v[2];o[1][0]=v[1];o[1][1]=v[3];break;}}
static const ArgD A69[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"bilo0",'i',0,0},{"bilo1",'i',0,0},{"bilo2",'i',0,0},{"bihi0",'i',0,0},{"bihi1",'i',0,0},{"bihi2",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',3,0},{"b1",'D',3,0},{"b2",'D',3,0},{"sgcw",'i',0,0},{"stencil",'D',4,1}};
static void D69(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 12:o[0][0]=0;o[0][1]=3-1;break;case 14:o[0][0]=v[6];o[0][1]=v[9]+1;o[1][0]=v[7];o[1][1]=v[10];o[2][0]=v[8];o[2][1]=v[11];break;case 15:o[0][0]=v[7];o[0][1]=v[10]+1;o[1][0]=v[8];o[1][1]=v[11];o[2][0]=v[6];o[2][1]=v[9];break;case 16:o[0][0]=v[8];o[0][1]=v[11]+1;o[1][0]=v[6];o[1][1]=v[9];o[2][0]=v[7];o[2][1]=v[10];break;case 18:o[0][0]=0;o[0][1]=6;o[1][0]=v[0]-v[17];o[1][1]=v[3]+v[17];o[2][0]=v[1]-v[17];o[2][1]=v[4]+v[17];o[3][0]=v[2]-v[17];o[3][1]=v[5]+v[17];break;}}
static const ArgD A70[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"sgcw",'i',0,0},{"stencil",'D',4,1}};
static void D70(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=3-1;break;case 9:o[0][0]=0;o[0][1]=6;o[1][0]=v[0]-v[8];o[1][1]=v[3]+v[8];o[2][0]=v[1]-v[8];o[2][1]=v[4]+v[8];o[3][0]=v[2]-v[8];o[3][1]=v[5]+v[8];break;}}
static const ArgD A71[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"ailo0",'i',0,0},{"ailo1",'i',0,0},{"ailo2",'i',0,0},{"aihi0",'i',0,0},{"aihi1",'i',0,0},{"aihi2",'i',0,0},{"alpha",'d',0,0},{"a",'D',3,0},{"sgcw",'i',0,0},{"stencil",'D',4,1}};
static void D71(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 13:o[0][0]=v[6];o[0][1]=v[9];o[1][0]=v[7];o[1][1]=v[10];o[2][0]=v[8];o[2][1]=v[11];break;case 15:o[0][0]=0;o[0][1]=6;o[1][0]=v[0]-v[14];o[1][1]=v[3]+v[14];o[2][0]=v[1]-v[14];o[2][1]=v[4]+v[14];o[3][0]=v[2]-v[14];o[3][1]=v[5]+v[14];break;}}
static const ArgD A72[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"alpha",'d',0,0},{"sgcw",'i',0,0},{"stencil",'D',4,1}};
static void D72(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 8:o[0][0]=0;o[0][1]=6;o[1][0]=v[0]-v[7];o[1][1]=v[3]+v[7];o[2][0]=v[1]-v[7];o[2][1]=v[4]+v[7];o[3][0]=v[2]-v[7];o[3][1]=v[5]+v[7];break;}}
static const ArgD A73[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"sgcw",'i',0,0},{"stencil",'D',4,1}};
static void D73(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=6;o[1][0]=v[0]-v[6];o[1][1]=v[3]+v[6];o[2][0]=v[1]-v[6];o[2][1]=v[4]+v[6];o[3][0]=v[2]-v[6];o[3][1]=v[5]+v[6];break;}}
static const ArgD A74[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',3,0},{"b1",'D',3,0},{"b2",'D',3,0},{"sgcw",'i',0,0},{"stencil",'D',4,1}};
static void D74(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 16:o[0][0]=0;o[0][1]=3-1;break;case 18:o[0][0]=v[0];o[0][1]=v[3]+1;o[1][0]=v[1];o[1][1]=v[4];o[2][0]=v[2];o[2][1]=v[5];break;case 19:o[0][0]=v[1];o[0][1]=v[4]+1;o[1][0]=v[2];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[3];break;case 20:o[0][0]=v[2];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];break;case 22:o[0][0]=0;o[0][1]=6;o[1][0]=v[0]-v[21];o[1][1]=v[3]+v[21];o[2][0]=v[1]-v[21];o[2][1]=v[4]+v[21];o[3][0]=v[2]-v[21];o[3][1]=v[5]+v[21];break;}}
static const ArgD A75[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"sgcw",'i',0,0},{"stencil",'D',4,1}};
static void D75(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 16:o[0][0]=0;o[0][1]=3-1;break;case 19:o[0][0]=0;o[0][1]=6;o[1][0]=v[0]-v[18];o[1][1]=v[3]+v[18];o[2][0]=v[1]-v[18];o[2][1]=v[4]+v[18];o[3][0]=v[2]-v[18];o[3][1]=v[5]+v[18];break;}}
static const ArgD A76[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"r",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',3,0},{"b1",'D',3,0},{"b2",'D',3,0},{"sgcw",'i',0,0},{"stencil",'D',4,1}};
static void D76(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 16:o[0][0]=0;o[0][1]=3-1;break;case 18:o[0][0]=v[0];o[0][1]=v[3]+1;o[1][0]=v[1];o[1][1]=v[4];o[2][0]=v[2];o[2][1]=v[5];break;case 19:o[0][0]=v[1];o[0][1]=v[4]+1;o[1][0]=v[2];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[3];break;case 20:o[0][0]=v[2];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];break;case 22:o[0][0]=0;o[0][1]=6;o[1][0]=v[0]-v[21];o[1][1]=v[3]+v[21];o[2][0]=v[1]-v[21];o[2][1]=v[4]+v[21];o[3][0]=v[2]-v[21];o[3][1]=v[5]+v[21];break;}}
static const ArgD A77[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"r",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"sgcw",'i',0,0},{"stencil",'D',4,1}};
static void D77(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 16:o[0][0]=0;o[0][1]=3-1;break;case 19:o[0][0]=0;o[0][1]=6;o[1][0]=v[0]-v[18];o[1][1]=v[3]+v[18];o[2][0]=v[1]-v[18];o[2][1]=v[4]+v[18];o[3][0]=v[2]-v[18];o[3][1]=v[5]+v[18];break;}}
static const ArgD A78[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"dirfactor",'d',0,0},{"neufactor",'d',0,0},{"beta",'d',0,0},{"b0",'D',3,0},{"b1",'D',3,0},{"b2",'D',3,0},{"sgcw",'i',0,0},{"stencil",'D',4,1}};
static void D78(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 16:o[0][0]=0;o[0][1]=3-1;break;case 20:o[0][0]=v[0];o[0][1]=v[3]+1;o[1][0]=v[1];o[1][1]=v[4];o[2][0]=v[2];o[2][1]=v[5];break;case 21:o[0][0]=v[1];o[0][1]=v[4]+1;o[1][0]=v[2];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[3];break;case 22:o[0][0]=v[2];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];break;case 24:o[0][0]=0;o[0][1]=6;o[1][0]=v[0]-v[23];o[1][1]=v[3]+v[23];o[2][0]=v[1]-v[23];o[2][1]=v[4]+v[23];o[3][0]=v[2]-v[23];o[3][1]=v[5]+v[23];break;}}
static const ArgD A79[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"dirfactor",'d',0,0},{"neufactor",'d',0,0},{"beta",'d',0,0},{"sgcw",'i',0,0},{"stencil",'D',4,1}};
static void D79(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 16:o[0][0]=0;o[0][1]=3-1;break;case 21:o[0][0]=0;o[0][1]=6;o[1][0]=v[0]-v[20];o[1][1]=v[3]+v[20];o[2][0]=v[1]-v[20];o[2][1]=v[4]+v[20];o[3][0]=v[2]-v[20];o[3][1]=v[5]+v[20];break;}}
static const ArgD A80[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"r",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"sgcw",'i',0,0},{"stencil",'D',4,1}};
static void D80(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 17:o[0][0]=0;o[0][1]=6;o[1][0]=v[0]-v[16];o[1][1]=v[3]+v[16];o[2][0]=v[1]-v[16];o[2][1]=v[4]+v[16];o[3][0]=v[2]-v[16];o[3][1]=v[5]+v[16];break;}}
static const ArgD A81[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"sgcw",'i',0,0},{"stencil",'D',4,1}};
static void D81(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 15:o[0][0]=0;o[0][1]=6;o[1][0]=v[0]-v[14];o[1][1]=v[3]+v[14];o[2][0]=v[1]-v[14];o[2][1]=v[4]+v[14];o[3][0]=v[2]-v[14];o[3][1]=v[5]+v[14];break;}}
static const ArgD A82[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"sgcw",'i',0,0},{"stencil",'D',4,0},{"gcw",'i',0,0},{"u",'D',3,0},{"rhs",'D',3,1}};
static void D82(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 15:o[0][0]=0;o[0][1]=6;o[1][0]=v[0]-v[14];o[1][1]=v[3]+v[14];o[2][0]=v[1]-v[14];o[2][1]=v[4]+v[14];o[3][0]=v[2]-v[14];o[3][1]=v[5]+v[14];break;case 17:o[0][0]=v[0]-v[16];o[0][1]=v[3]+v[16];o[1][0]=v[1]-v[16];o[1][1]=v[4]+v[16];o[2][0]=v[2]-v[16];o[2][1]=v[5]+v[16];break;case 18:o[0][0]=v[0];o[0][1]=v[3];o[1][0]=v[1];o[1][1]=v[4];o[2][0]=v[2];o[2][1]=v[5];break;}}
static const ArgD A83[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"dx",'D',1,0},{"dgcw",'i',0,0},{"d0",'D',1,0},{"ugcw",'i',0,0},{"u",'D',1,1},{"seglo",'I',1,0},{"seghi",'I',1,0},{"order",'i',0,0},{"face",'i',0,0},{"btype",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0}};
static void D83(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 2:o[0][0]=0;o[0][1]=1-1;break;case 4:o[0][0]=v[0]-v[3];o[0][1]=v[1]+1+v[3];break;case 6:o[0][0]=v[0]-v[5];o[0][1]=v[1]+v[5];break;case 7:o[0][0]=0;o[0][1]=1-1;break;case 8:o[0][0]=0;o[0][1]=1-1;break;}}
static const ArgD A84[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"dx",'D',1,0},{"ugcw",'i',0,0},{"u",'D',1,1},{"seglo",'I',1,0},{"seghi",'I',1,0},{"order",'i',0,0},{"face",'i',0,0},{"btype",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0}};
static void D84(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 2:o[0][0]=0;o[0][1]=1-1;break;case 4:o[0][0]=v[0]-v[3];o[0][1]=v[1]+v[3];break;case 5:o[0][0]=0;o[0][1]=1-1;break;case 6:o[0][0]=0;o[0][1]=1-1;break;}}
static const ArgD A85[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"dx",'D',1,0},{"dgcw",'i',0,0},{"d0",'D',2,0},{"d1",'D',2,0},{"ugcw",'i',0,0},{"u",'D',2,1},{"seglo",'I',1,0},{"seghi",'I',1,0},{"order",'i',0,0},{"face",'i',0,0},{"type",'i',0,0},{"btype",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0}};
static void D85(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=2-1;break;case 6:o[0][0]=v[0]-v[5];o[0][1]=v[1]+1+v[5];o[1][0]=v[2]-v[5];o[1][1]=v[3]+v[5];break;case 7:o[0][0]=v[2]-v[5];o[0][1]=v[3]+1+v[5];o[1][0]=v[0]-v[5];o[1][1]=v[1]+v[5];break;case 9:o[0][0]=v[0]-v[8];o[0][1]=v[1]+v[8];o[1][0]=v[2]-v[8];o[1][1]=v[3]+v[8];break;case 10:o[0][0]=0;o[0][1]=2-1;break;case 11:o[0][0]=0;o[0][1]=2-1;break;}}
static const ArgD A86[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"dx",'D',1,0},{"ugcw",'i',0,0},{"u",'D',2,1},{"seglo",'I',1,0},{"seghi",'I',1,0},{"order",'i',0,0},{"face",'i',0,0},{"type",'i',0,0},{"btype",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0}};
static void D86(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=2-1;break;case 6:o[0][0]=v[0]-v[5];o[0][1]=v[1]+v[5];o[1][0]=v[2]-v[5];o[1][1]=v[3]+v[5];break;case 7:o[0][0]=0;o[0][1]=2-1;break;case 8:o[0][0]=0;o[0][1]=2-1;break;}}
static const ArgD A87[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"gcw",'i',0,0},{"dx",'D',1,0},{"d0",'D',2,0},{"d1",'D',2,0},{"u",'D',2,1},{"seglo",'I',1,0},{"seghi",'I',1,0},{"order",'i',0,0},{"face",'i',0,0},{"type",'i',0,0},{"btype",'i',0,0}};
static void D87(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 5:o[0][0]=0;o[0][1]=2-1;break;case 6:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];break;case 7:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[1];break;case 8:o[0][0]=v[0]-v[4];o[0][1]=v[1]+v[4];o[1][0]=v[2]-v[4];o[1][1]=v[3]+v[4];break;case 9:o[0][0]=0;o[0][1]=2-1;break;case 10:o[0][0]=0;o[0][1]=2-1;break;}}
static const ArgD A88[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"face",'i',0,0},{"seglo",'I',1,0},{"seghi",'I',1,0},{"order",'i',0,0},{"var",'D',2,1}};
static void D88(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 5:o[0][0]=0;o[0][1]=2-1;break;case 6:o[0][0]=0;o[0][1]=2-1;break;case 8:o[0][0]=v[0]-1;o[0][1]=v[2]+1;o[1][0]=v[1]-1;o[1][1]=v[3]+1;break;}}
static const ArgD A89[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"dx",'D',1,0},{"dgcw",'i',0,0},{"d0",'D',3,0},{"d1",'D',3,0},{"d2",'D',3,0},{"ugcw",'i',0,0},{"u",'D',3,1},{"seglo",'I',1,0},{"seghi",'I',1,0},{"order",'i',0,0},{"face",'i',0,0},{"type",'i',0,0},{"btype",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0}};
static void D89(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=3-1;break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+1+v[7];o[1][0]=v[2]-v[7];o[1][1]=v[3]+v[7];o[2][0]=v[4]-v[7];o[2][1]=v[5]+v[7];break;case 9:o[0][0]=v[2]-v[7];o[0][1]=v[3]+1+v[7];o[1][0]=v[4]-v[7];o[1][1]=v[5]+v[7];o[2][0]=v[0]-v[7];o[2][1]=v[1]+v[7];break;case 10:o[0][0]=v[4]-v[7];o[0][1]=v[5]+1+v[7];o[1][0]=v[0]-v[7];o[1][1]=v[1]+v[7];o[2][0]=v[2]-v[7];o[2][1]=v[3]+v[7];break;case 12:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 13:o[0][0]=0;o[0][1]=3-1;break;case 14:o[0][0]=0;o[0][1]=3-1;break;}}
static const ArgD A90[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"dx",'D',1,0},{"ugcw",'i',0,0},{"u",'D',3,1},{"seglo",'I',1,0},{"seghi",'I',1,0},{"order",'i',0,0},{"face",'i',0,0},{"type",'i',0,0},{"btype",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0}};
static void D90(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=3-1;break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];o[1][0]=v[2]-v[7];o[1][1]=v[3]+v[7];o[2][0]=v[4]-v[7];o[2][1]=v[5]+v[7];break;case 9:o[0][0]=0;o[0][1]=3-1;break;case 10:o[0][0]=0;o[0][1]=3-1;break;}}
static const ArgD A91[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"stencilsize",'i',0,0},{"offset",'I',2,0},{"slo0",'i',0,0},{"shi0",'i',0,0},{"stencil",'D',2,0},{"flo0",'i',0,0},{"fhi0",'i',0,0},{"f",'D',1,0},{"ulo0",'i',0,0},{"uhi0",'i',0,0},{"u",'D',1,1}};
static void D91(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 3:o[0][0]=0;o[0][1]=1-1;o[1][0]=0;o[1][1]=v[2]-1;break;case 6:o[0][0]=0;o[0][1]=v[2]-1;o[1][0]=v[4];o[1][1]=v[5];break;case 9:o[0][0]=v[7];o[0][1]=v[8];break;case 12:o[0][0]=v[10];o[0][1]=v[11];break;}}
static const ArgD A92[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"stencilsize",'i',0,0},{"offset",'I',2,0},{"slo0",'i',0,0},{"shi0",'i',0,0},{"stencil",'D',2,0},{"flo0",'i',0,0},{"fhi0",'i',0,0},{"f",'D',1,0},{"ulo0",'i',0,0},{"uhi0",'i',0,0},{"u",'D',1,1}};
static void D92(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 3:o[0][0]=0;o[0][1]=1-1;o[1][0]=0;o[1][1]=v[2]-1;break;case 6:o[0][0]=0;o[0][1]=v[2]-1;o[1][0]=v[4];o[1][1]=v[5];break;case 9:o[0][0]=v[7];o[0][1]=v[8];break;case 12:o[0][0]=v[10];o[0][1]=v[11];break;}}
static const ArgD A93[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"color",'i',0,0},{"stencilsize",'i',0,0},{"offset",'I',2,0},{"slo0",'i',0,0},{"shi0",'i',0,0},{"stencil",'D',2,0},{"flo0",'i',0,0},{"fhi0",'i',0,0},{"f",'D',1,0},{"ulo0",'i',0,0},{"uhi0",'i',0,0},{"u",'D',1,1}};
static void D93(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=1-1;o[1][0]=0;o[1][1]=v[3]-1;break;case 7:o[0][0]=0;o[0][1]=v[3]-1;o[1][0]=v[5];o[1][1]=v[6];break;case 10:o[0][0]=v[8];o[0][1]=v[9];break;case 13:o[0][0]=v[11];o[0][1]=v[12];break;}}
static const ArgD A94[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"stencilsize",'i',0,0},{"offset",'I',2,0},{"slo0",'i',0,0},{"shi0",'i',0,0},{"slo1",'i',0,0},{"shi1",'i',0,0},{"stencil",'D',3,0},{"flo0",'i',0,0},{"fhi0",'i',0,0},{"flo1",'i',0,0},{"fhi1",'i',0,0},{"f",'D',2,0},{"ulo0",'i',0,0},{"uhi0",'i',0,0},{"ulo1",'i',0,0},{"uhi1",'i',0,0},{"u",'D',2,1}};
static void D94(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 5:o[0][0]=0;o[0][1]=2-1;o[1][0]=0;o[1][1]=v[4]-1;break;case 10:o[0][0]=0;o[0][1]=v[4]-1;o[1][0]=v[6];o[1][1]=v[7];o[2][0]=v[8];o[2][1]=v[9];break;case 15:o[0][0]=v[11];o[0][1]=v[12];o[1][0]=v[13];o[1][1]=v[14];break;case 20:o[0][0]=v[16];o[0][1]=v[17];o[1][0]=v[18];o[1][1]=v[19];break;}}
static const ArgD A95[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"stencilsize",'i',0,0},{"offset",'I',2,0},{"slo0",'i',0,0},{"shi0",'i',0,0},{"slo1",'i',0,0},{"shi1",'i',0,0},{"stencil",'D',3,0},{"flo0",'i',0,0},{"fhi0",'i',0,0},{"flo1",'i',0,0},{"fhi1",'i',0,0},{"f",'D',2,0},{"ulo0",'i',0,0},{"uhi0",'i',0,0},{"ulo1",'i',0,0},{"uhi1",'i',0,0},{"u",'D',2,1}};
static void D95(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 5:o[0][0]=0;o[0][1]=2-1;o[1][0]=0;o[1][1]=v[4]-1;break;case 10:o[0][0]=0;o[0][1]=v[4]-1;o[1][0]=v[6];o[1][1]=v[7];o[2][0]=v[8];o[2][1]=v[9];break;case 15:o[0][0]=v[11];o[0][1]=v[12];o[1][0]=v[13];o[1][1]=v[14];break;case 20:o[0][0]=v[16];o[0][1]=v[17];o[1][0]=v[18];o[1][1]=v[19];break;}}
static const ArgD A96[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"color",'i',0,0},{"stencilsize",'i',0,0},{"offset",'I',2,0},{"slo0",'i',0,0},{"shi0",'i',0,0},{"slo1",'i',0,0},{"shi1",'i',0,0},{"stencil",'D',3,0},{"flo0",'i',0,0},{"fhi0",'i',0,0},{"flo1",'i',0,0},{"fhi1",'i',0,0},{"f",'D',2,0},{"ulo0",'i',0,0},{"uhi0",'i',0,0},{"ulo1",'i',0,0},{"uhi1",'i',0,0},{"u",'D',2,1}};
static void D96(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=2-1;o[1][0]=0;o[1][1]=v[5]-1;break;case 11:o[0][0]=0;o[0][1]=v[5]-1;o[1][0]=v[7];o[1][1]=v[8];o[2][0]=v[9];o[2][1]=v[10];break;case 16:o[0][0]=v[12];o[0][1]=v[13];o[1][0]=v[14];o[1][1]=v[15];break;case 21:o[0][0]=v[17];o[0][1]=v[18];o[1][0]=v[19];o[1][1]=v[20];break;}}
static const ArgD A97[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"color",'i',0,0},{"slo0",'i',0,0},{"shi0",'i',0,0},{"slo1",'i',0,0},{"shi1",'i',0,0},{"stencil",'D',3,0},{"flo0",'i',0,0},{"fhi0",'i',0,0},{"flo1",'i',0,0},{"fhi1",'i',0,0},{"f",'D',2,0},{"ulo0",'i',0,0},{"uhi0",'i',0,0},{"ulo1",'i',0,0},{"uhi1",'i',0,0},{"u",'D',2,1}};
static void D97(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 9:o[0][0]=0;o[0][1]=4;o[1][0]=v[5];o[1][1]=v[6];o[2][0]=v[7];o[2][1]=v[8];break;case 14:o[0][0]=v[10];o[0][1]=v[11];o[1][0]=v[12];o[1][1]=v[13];break;case 19:o[0][0]=v[15];o[0][1]=v[16];o[1][0]=v[17];o[1][1]=v[18];break;}}
static const ArgD A98[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"color",'i',0,0},{"slo0",'i',0,0},{"shi0",'i',0,0},{"slo1",'i',0,0},{"shi1",'i',0,0},{"stencil",'D',3,0},{"flo0",'i',0,0},{"fhi0",'i',0,0},{"flo1",'i',0,0},{"fhi1",'i',0,0},{"f",'D',2,0},{"ulo0",'i',0,0},{"uhi0",'i',0,0},{"ulo1",'i',0,0},{"uhi1",'i',0,0},{"u",'D',2,1}};
static void D98(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 9:o[0][0]=0;o[0][1]=8;o[1][0]=v[5];o[1][1]=v[6];o[2][0]=v[7];o[2][1]=v[8];break;case 14:o[0][0]=v[10];o[0][1]=v[11];o[1][0]=v[12];o[1][1]=v[13];break;case 19:o[0][0]=v[15];o[0][1]=v[16];o[1][0]=v[17];o[1][1]=v[18];break;}}
static const ArgD A99[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"stencilsize",'i',0,0},{"offset",'I',2,0},{"slo0",'i',0,0},{"shi0",'i',0,0},{"slo1",'i',0,0},{"shi1",'i',0,0},{"slo2",'i',0,0},{"shi2",'i',0,0},{"stencil",'D',4,0},{"flo0",'i',0,0},{"fhi0",'i',0,0},{"flo1",'i',0,0},{"fhi1",'i',0,0},{"flo2",'i',0,0},{"fhi2",'i',0,0},{"f",'D',3,0},{"ulo0",'i',0,0},{"uhi0",'i',0,0},{"ulo1",'i',0,0},{"uhi1",'i',0,0},{"ulo2",'i',0,0},{"uhi2",'i',0,0},{"u",'D',3,1}};
static void D99(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=3-1;o[1][0]=0;o[1][1]=v[6]-1;break;case 14:o[0][0]=0;o[0][1]=v[6]-1;o[1][0]=v[8];o[1][1]=v[9];o[2][0]=v[10];o[2][1]=v[11];o[3][0]=v[12];o[3][1]=v[13];break;case 21:o[0][0]=v[15];o[0][1]=v[16];o[1][0]=v[17];o[1][1]=v[18];o[2][0]=v[19];o[2][1]=v[20];break;case 28:o[0][0]=v[22];o[0][1]=v[23];o[1][0]=v[24];o[1][1]=v[25];o[2][0]=v[26];o[2][1]=v[27];break;}}
static const ArgD A100[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"stencilsize",'i',0,0},{"offset",'I',2,0},{"slo0",'i',0,0},{"shi0",'i',0,0},{"slo1",'i',0,0},{"shi1",'i',0,0},{"slo2",'i',0,0},{"shi2",'i',0,0},{"stencil",'D',4,0},{"flo0",'i',0,0},{"fhi0",'i',0,0},{"flo1",'i',0,0},{"fhi1",'i',0,0},{"flo2",'i',0,0},{"fhi2",'i',0,0},{"f",'D',3,0},{"ulo0",'i',0,0},{"uhi0",'i',0,0},{"ulo1",'i',0,0},{"uhi1",'i',0,0},{"ulo2",'i',0,0},{"uhi2",'i',0,0},{"u",'D',3,1}};
static void D100(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=3-1;o[1][0]=0;o[1][1]=v[6]-1;break;case 14:o[0][0]=0;o[0][1]=v[6]-1;o[1][0]=v[8];o[1][1]=v[9];o[2][0]=v[10];o[2][1]=v[11];o[3][0]=v[12];o[3][1]=v[13];break;case 21:o[0][0]=v[15];o[0][1]=v[16];o[1][0]=v[17];o[1][1]=v[18];o[2][0]=v[19];o[2][1]=v[20];break;case 28:o[0][0]=v[22];o[0][1]=v[23];o[1][0]=v[24];o[1][1]=v[25];o[2][0]=v[26];o[2][1]=v[27];break;}}
static const ArgD A101[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"color",'i',0,0},{"stencilsize",'i',0,0},{"offset",'I',2,0},{"slo0",'i',0,0},{"shi0",'i',0,0},{"slo1",'i',0,0},{"shi1",'i',0,0},{"slo2",'i',0,0},{"shi2",'i',0,0},{"stencil",'D',4,0},{"flo0",'i',0,0},{"fhi0",'i',0,0},{"flo1",'i',0,0},{"fhi1",'i',0,0},{"flo2",'i',0,0},{"fhi2",'i',0,0},{"f",'D',3,0},{"ulo0",'i',0,0},{"uhi0",'i',0,0},{"ulo1",'i',0,0},{"uhi1",'i',0,0},{"ulo2",'i',0,0},{"uhi2",'i',0,0},{"u",'D',3,1}};
static void D101(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 8:o[0][0]=0;o[0][1]=3-1;o[1][0]=0;o[1][1]=v[7]-1;break;case 15:o[0][0]=0;o[0][1]=v[7]-1;o[1][0]=v[9];o[1][1]=v[10];o[2][0]=v[11];o[2][1]=v[12];o[3][0]=v[13];o[3][1]=v[14];break;case 22:o[0][0]=v[16];o[0][1]=v[17];o[1][0]=v[18];o[1][1]=v[19];o[2][0]=v[20];o[2][1]=v[21];break;case 29:o[0][0]=v[23];o[0][1]=v[24];o[1][0]=v[25];o[1][1]=v[26];o[2][0]=v[27];o[2][1]=v[28];break;}}
static const ArgD A102[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"color",'i',0,0},{"slo0",'i',0,0},{"shi0",'i',0,0},{"slo1",'i',0,0},{"shi1",'i',0,0},{"slo2",'i',0,0},{"shi2",'i',0,0},{"stencil",'D',4,0},{"flo0",'i',0,0},{"fhi0",'i',0,0},{"flo1",'i',0,0},{"fhi1",'i',0,0},{"flo2",'i',0,0},{"fhi2",'i',0,0},{"f",'D',3,0},{"ulo0",'i',0,0},{"uhi0",'i',0,0},{"ulo1",'i',0,0},{"uhi1",'i',0,0},{"ulo2",'i',0,0},{"uhi2",'i',0,0},{"u",'D',3,1}};
static void D102(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 13:o[0][0]=0;o[0][1]=6;o[1][0]=v[7];o[1][1]=v[8];o[2][0]=v[9];o[2][1]=v[10];o[3][0]=v[11];o[3][1]=v[12];break;case 20:o[0][0]=v[14];o[0][1]=v[15];o[1][0]=v[16];o[1][1]=v[17];o[2][0]=v[18];o[2][1]=v[19];break;case 27:o[0][0]=v[21];o[0][1]=v[22];o[1][0]=v[23];o[1][1]=v[24];o[2][0]=v[25];o[2][1]=v[26];break;}}
static const ArgD A103[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"size",'i',0,0},{"offset",'I',2,0},{"stencil",'D',5,0},{"ndof",'i',0,0},{"fgcw",'i',0,0},{"f",'D',4,0},{"ugcw",'i',0,0},{"u",'D',4,1},{"rgcw",'i',0,0},{"r",'D',4,1}};
static void D103(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 8:o[0][0]=1;o[0][1]=v[6];o[1][0]=1;o[1][1]=v[9]*v[9];o[2][0]=v[0];o[2][1]=v[1];o[3][0]=v[2];o[3][1]=v[3];o[4][0]=v[4];o[4][1]=v[5];break;case 11:o[0][0]=1;o[0][1]=v[9];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];o[3][0]=v[4]-v[10];o[3][1]=v[5]+v[10];break;case 13:o[0][0]=1;o[0][1]=v[9];o[1][0]=v[0]-v[12];o[1][1]=v[1]+v[12];o[2][0]=v[2]-v[12];o[2][1]=v[3]+v[12];o[3][0]=v[4]-v[12];o[3][1]=v[5]+v[12];break;case 15:o[0][0]=1;o[0][1]=v[9];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];o[2][0]=v[2]-v[14];o[2][1]=v[3]+v[14];o[3][0]=v[4]-v[14];o[3][1]=v[5]+v[14];break;}}
static const ArgD A104[]={{"clo0",'i',0,0},{"chi0",'i',0,0},{"clo1",'i',0,0},{"chi1",'i',0,0},{"clo2",'i',0,0},{"chi2",'i',0,0},{"flo0",'i',0,0},{"fhi0",'i',0,0},{"flo1",'i',0,0},{"fhi1",'i',0,0},{"flo2",'i',0,0},{"fhi2",'i',0,0},{"axis",'i',0,0},{"cblo0",'i',0,0},{"cbhi0",'i',0,0},{"cblo1",'i',0,0},{"cbhi1",'i',0,0},{"cblo2",'i',0,0},{"cbhi2",'i',0,0},{"fblo0",'i',0,0},{"fbhi0",'i',0,0},{"fblo1",'i',0,0},{"fbhi1",'i',0,0},{"fblo2",'i',0,0},{"fbhi2",'i',0,0},{"gcw",'i',0,0},{"ratio",'I',1,0},{"cdata",'D',3,0},{"fdata",'D',3,1}};
static void D104(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 26:o[0][0]=0;o[0][1]=2;break;case 27:o[0][0]=v[13]-v[25];o[0][1]=v[14]+v[25];o[1][0]=v[15]-v[25];o[1][1]=v[16]+v[25];o[2][0]=v[17]-v[25];o[2][1]=v[18]+v[25];break;case 28:o[0][0]=v[19]-v[25];o[0][1]=v[20]+v[25];o[1][0]=v[21]-v[25];o[1][1]=v[22]+v[25];o[2][0]=v[23]-v[25];o[2][1]=v[24]+v[25];break;}}
static const ArgD A105[]={{"clo0",'i',0,0},{"chi0",'i',0,0},{"clo1",'i',0,0},{"chi1",'i',0,0},{"clo2",'i',0,0},{"chi2",'i',0,0},{"flo0",'i',0,0},{"fhi0",'i',0,0},{"flo1",'i',0,0},{"fhi1",'i',0,0},{"flo2",'i',0,0},{"fhi2",'i',0,0},{"cblo0",'i',0,0},{"cbhi0",'i',0,0},{"cblo1",'i',0,0},{"cbhi1",'i',0,0},{"cblo2",'i',0,0},{"cbhi2",'i',0,0},{"fblo0",'i',0,0},{"fbhi0",'i',0,0},{"fblo1",'i',0,0},{"fbhi1",'i',0,0},{"fblo2",'i',0,0},{"fbhi2",'i',0,0},{"gcw",'i',0,0},{"cdata",'D',3,0},{"fdata",'D',3,1}};
static void D105(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 25:o[0][0]=v[12]-v[24];o[0][1]=v[13]+v[24];o[1][0]=v[14]-v[24];o[1][1]=v[15]+v[24];o[2][0]=v[16]-v[24];o[2][1]=v[17]+v[24];break;case 26:o[0][0]=v[18]-v[24];o[0][1]=v[19]+v[24];o[1][0]=v[20]-v[24];o[1][1]=v[21]+v[24];o[2][0]=v[22]-v[24];o[2][1]=v[23]+v[24];break;}}
static const ArgD A106[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"gcw",'i',0,0},{"u",'D',3,1},{"seglo",'I',1,0},{"seghi",'I',1,0},{"face",'i',0,0},{"type",'i',0,0}};
static void D106(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=v[0]-v[6];o[0][1]=v[1]+v[6];o[1][0]=v[2]-v[6];o[1][1]=v[3]+v[6];o[2][0]=v[4]-v[6];o[2][1]=v[5]+v[6];break;case 8:o[0][0]=0;o[0][1]=3-1;break;case 9:o[0][0]=0;o[0][1]=3-1;break;}}
static const ArgD A107[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"agcw",'i',0,0},{"acoef",'D',1,0},{"ugcw",'i',0,0},{"u",'D',1,0},{"fgcw",'i',0,0},{"f",'D',1,0},{"flux0",'D',1,0},{"a",'d',0,0},{"b",'d',0,0},{"rgcw",'i',0,0},{"res",'D',1,1}};
static void D107(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=1-1;break;case 6:o[0][0]=v[0]-v[5];o[0][1]=v[1]+v[5];break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];break;case 11:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 15:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];break;}}
static const ArgD A108[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"ugcw",'i',0,0},{"u",'D',1,0},{"fgcw",'i',0,0},{"f",'D',1,0},{"flux0",'D',1,0},{"a",'d',0,0},{"b",'d',0,0},{"rgcw",'i',0,0},{"res",'D',1,1}};
static void D108(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=1-1;break;case 6:o[0][0]=v[0]-v[5];o[0][1]=v[1]+v[5];break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];break;case 9:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 13:o[0][0]=v[0]-v[12];o[0][1]=v[1]+v[12];break;}}
static const ArgD A109[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"fgcw",'i',0,0},{"f",'D',1,0},{"flux0",'D',1,0},{"a",'d',0,0},{"b",'d',0,0},{"rgcw",'i',0,0},{"res",'D',1,1}};
static void D109(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 3:o[0][0]=0;o[0][1]=1-1;break;case 5:o[0][0]=v[0]-v[4];o[0][1]=v[1]+v[4];break;case 6:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];break;}}
static const ArgD A110[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"agcw",'i',0,0},{"acoef",'D',2,0},{"ugcw",'i',0,0},{"u",'D',2,0},{"fgcw",'i',0,0},{"f",'D',2,0},{"flux0",'D',2,0},{"flux1",'D',2,0},{"a",'d',0,0},{"b",'d',0,0},{"rgcw",'i',0,0},{"res",'D',2,1}};
static void D110(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=1;break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];o[1][0]=v[2]-v[7];o[1][1]=v[3]+v[7];break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];o[1][0]=v[2]-v[9];o[1][1]=v[3]+v[9];break;case 12:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 13:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];break;case 14:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[1];break;case 18:o[0][0]=v[0]-v[17];o[0][1]=v[1]+v[17];o[1][0]=v[2]-v[17];o[1][1]=v[3]+v[17];break;}}
static const ArgD A111[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"ugcw",'i',0,0},{"u",'D',2,0},{"fgcw",'i',0,0},{"f",'D',2,0},{"flux0",'D',2,0},{"flux1",'D',2,0},{"a",'d',0,0},{"b",'d',0,0},{"rgcw",'i',0,0},{"res",'D',2,1}};
static void D111(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=1;break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[1]+v[7];o[1][0]=v[2]-v[7];o[1][1]=v[3]+v[7];break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];o[1][0]=v[2]-v[9];o[1][1]=v[3]+v[9];break;case 11:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];break;case 12:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[1];break;case 16:o[0][0]=v[0]-v[15];o[0][1]=v[1]+v[15];o[1][0]=v[2]-v[15];o[1][1]=v[3]+v[15];break;}}
static const ArgD A112[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"fgcw",'i',0,0},{"f",'D',2,0},{"flux0",'D',2,0},{"flux1",'D',2,0},{"a",'d',0,0},{"b",'d',0,0},{"rgcw",'i',0,0},{"res",'D',2,1}};
static void D112(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 5:o[0][0]=0;o[0][1]=1;break;case 7:o[0][0]=v[0]-v[6];o[0][1]=v[1]+v[6];o[1][0]=v[2]-v[6];o[1][1]=v[3]+v[6];break;case 8:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];break;case 9:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[1];break;case 13:o[0][0]=v[0]-v[12];o[0][1]=v[1]+v[12];o[1][0]=v[2]-v[12];o[1][1]=v[3]+v[12];break;}}
static const ArgD A113[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"agcw",'i',0,0},{"acoef",'D',3,0},{"ugcw",'i',0,0},{"u",'D',3,0},{"fgcw",'i',0,0},{"f",'D',3,0},{"flux0",'D',3,0},{"flux1",'D',3,0},{"flux2",'D',3,0},{"a",'d',0,0},{"b",'d',0,0},{"rgcw",'i',0,0},{"res",'D',3,1}};
static void D113(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 8:o[0][0]=0;o[0][1]=3-1;break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];o[1][0]=v[2]-v[9];o[1][1]=v[3]+v[9];o[2][0]=v[4]-v[9];o[2][1]=v[5]+v[9];break;case 12:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 14:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];o[2][0]=v[4]-v[13];o[2][1]=v[5]+v[13];break;case 15:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];o[2][0]=v[4];o[2][1]=v[5];break;case 16:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[4];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[1];break;case 17:o[0][0]=v[4];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[1];o[2][0]=v[2];o[2][1]=v[3];break;case 21:o[0][0]=v[0]-v[20];o[0][1]=v[1]+v[20];o[1][0]=v[2]-v[20];o[1][1]=v[3]+v[20];o[2][0]=v[4]-v[20];o[2][1]=v[5]+v[20];break;}}
static const ArgD A114[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"alpha",'d',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"ugcw",'i',0,0},{"u",'D',3,0},{"fgcw",'i',0,0},{"f",'D',3,0},{"flux0",'D',3,0},{"flux1",'D',3,0},{"flux2",'D',3,0},{"a",'d',0,0},{"b",'d',0,0},{"rgcw",'i',0,0},{"res",'D',3,1}};
static void D114(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 8:o[0][0]=0;o[0][1]=3-1;break;case 10:o[0][0]=v[0]-v[9];o[0][1]=v[1]+v[9];o[1][0]=v[2]-v[9];o[1][1]=v[3]+v[9];o[2][0]=v[4]-v[9];o[2][1]=v[5]+v[9];break;case 12:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 13:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];o[2][0]=v[4];o[2][1]=v[5];break;case 14:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[4];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[1];break;case 15:o[0][0]=v[4];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[1];o[2][0]=v[2];o[2][1]=v[3];break;case 19:o[0][0]=v[0]-v[18];o[0][1]=v[1]+v[18];o[1][0]=v[2]-v[18];o[1][1]=v[3]+v[18];o[2][0]=v[4]-v[18];o[2][1]=v[5]+v[18];break;}}
static const ArgD A115[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"beta",'d',0,0},{"dx",'D',1,0},{"fgcw",'i',0,0},{"f",'D',3,0},{"flux0",'D',3,0},{"flux1",'D',3,0},{"flux2",'D',3,0},{"a",'d',0,0},{"b",'d',0,0},{"rgcw",'i',0,0},{"res",'D',3,1}};
static void D115(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=3-1;break;case 9:o[0][0]=v[0]-v[8];o[0][1]=v[1]+v[8];o[1][0]=v[2]-v[8];o[1][1]=v[3]+v[8];o[2][0]=v[4]-v[8];o[2][1]=v[5]+v[8];break;case 10:o[0][0]=v[0];o[0][1]=v[1]+1;o[1][0]=v[2];o[1][1]=v[3];o[2][0]=v[4];o[2][1]=v[5];break;case 11:o[0][0]=v[2];o[0][1]=v[3]+1;o[1][0]=v[4];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[1];break;case 12:o[0][0]=v[4];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[1];o[2][0]=v[2];o[2][1]=v[3];break;case 16:o[0][0]=v[0]-v[15];o[0][1]=v[1]+v[15];o[1][0]=v[2]-v[15];o[1][1]=v[3]+v[15];o[2][0]=v[4]-v[15];o[2][1]=v[5]+v[15];break;}}
static const ArgD A116[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"dx",'D',1,0},{"b0",'D',1,0},{"gcw",'i',0,0},{"u",'D',1,0},{"flux0",'D',1,1}};
static void D116(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 2:o[0][0]=0;o[0][1]=1-1;break;case 3:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 5:o[0][0]=v[0]-v[4];o[0][1]=v[1]+v[4];break;case 6:o[0][0]=v[0];o[0][1]=v[1]+1;break;}}
static const ArgD A117[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"dx",'D',1,0},{"gcw",'i',0,0},{"u",'D',1,0},{"flux0",'D',1,1}};
static void D117(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 2:o[0][0]=0;o[0][1]=1-1;break;case 4:o[0][0]=v[0]-v[3];o[0][1]=v[1]+v[3];break;case 5:o[0][0]=v[0];o[0][1]=v[1]+1;break;}}
static const ArgD A118[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"dx",'D',1,0},{"b0",'D',2,0},{"b1",'D',2,0},{"gcw",'i',0,0},{"u",'D',2,0},{"flux0",'D',2,1},{"flux1",'D',2,1}};
static void D118(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=1;break;case 5:o[0][0]=v[0];o[0][1]=v[2]+1;o[1][0]=v[1];o[1][1]=v[3];break;case 6:o[0][0]=v[1];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[2];break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[2]+v[7];o[1][0]=v[1]-v[7];o[1][1]=v[3]+v[7];break;case 9:o[0][0]=v[0];o[0][1]=v[2]+1;o[1][0]=v[1];o[1][1]=v[3];break;case 10:o[0][0]=v[1];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[2];break;}}
static const ArgD A119[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"dx",'D',1,0},{"gcw",'i',0,0},{"u",'D',2,0},{"flux0",'D',2,1},{"flux1",'D',2,1}};
static void D119(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=1;break;case 6:o[0][0]=v[0]-v[5];o[0][1]=v[2]+v[5];o[1][0]=v[1]-v[5];o[1][1]=v[3]+v[5];break;case 7:o[0][0]=v[0];o[0][1]=v[2]+1;o[1][0]=v[1];o[1][1]=v[3];break;case 8:o[0][0]=v[1];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[2];break;}}
static const ArgD A120[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"dx",'D',1,0},{"b0",'D',3,0},{"b1",'D',3,0},{"b2",'D',3,0},{"gcw",'i',0,0},{"u",'D',3,0},{"flux0",'D',3,1},{"flux1",'D',3,1},{"flux2",'D',3,1}};
static void D120(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=3-1;break;case 7:o[0][0]=v[0];o[0][1]=v[3]+1;o[1][0]=v[1];o[1][1]=v[4];o[2][0]=v[2];o[2][1]=v[5];break;case 8:o[0][0]=v[1];o[0][1]=v[4]+1;o[1][0]=v[2];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[3];break;case 9:o[0][0]=v[2];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];break;case 11:o[0][0]=v[0]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[1]-v[10];o[1][1]=v[4]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[5]+v[10];break;case 12:o[0][0]=v[0];o[0][1]=v[3]+1;o[1][0]=v[1];o[1][1]=v[4];o[2][0]=v[2];o[2][1]=v[5];break;case 13:o[0][0]=v[1];o[0][1]=v[4]+1;o[1][0]=v[2];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[3];break;case 14:o[0][0]=v[2];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];break;}}
static const ArgD A121[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"dx",'D',1,0},{"gcw",'i',0,0},{"u",'D',3,0},{"flux0",'D',3,1},{"flux1",'D',3,1},{"flux2",'D',3,1}};
static void D121(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=3-1;break;case 8:o[0][0]=v[0]-v[7];o[0][1]=v[3]+v[7];o[1][0]=v[1]-v[7];o[1][1]=v[4]+v[7];o[2][0]=v[2]-v[7];o[2][1]=v[5]+v[7];break;case 9:o[0][0]=v[0];o[0][1]=v[3]+1;o[1][0]=v[1];o[1][1]=v[4];o[2][0]=v[2];o[2][1]=v[5];break;case 10:o[0][0]=v[1];o[0][1]=v[4]+1;o[1][0]=v[2];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[3];break;case 11:o[0][0]=v[2];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];break;}}
static const ArgD A122[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"bilo0",'i',0,0},{"bihi0",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',1,0},{"stencil",'D',2,1}};
static void D122(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=1-1;break;case 6:o[0][0]=v[2];o[0][1]=v[3]+1;break;case 7:o[0][0]=0;o[0][1]=2;o[1][0]=v[0];o[1][1]=v[1];break;}}
static const ArgD A123[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"stencil",'D',2,1}};
static void D123(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 2:o[0][0]=0;o[0][1]=1-1;break;case 4:o[0][0]=0;o[0][1]=2;o[1][0]=v[0];o[1][1]=v[1];break;}}
static const ArgD A124[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"ailo0",'i',0,0},{"aihi0",'i',0,0},{"alpha",'d',0,0},{"a",'D',1,0},{"stencil",'D',2,1}};
static void D124(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 5:o[0][0]=v[2];o[0][1]=v[3];break;case 6:o[0][0]=0;o[0][1]=2;o[1][0]=v[0];o[1][1]=v[1];break;}}
static const ArgD A125[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"alpha",'d',0,0},{"stencil",'D',2,1}};
static void D125(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 3:o[0][0]=0;o[0][1]=2;o[1][0]=v[0];o[1][1]=v[1];break;}}
static const ArgD A126[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"stencil",'D',2,1}};
static void D126(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 2:o[0][0]=0;o[0][1]=2;o[1][0]=v[0];o[1][1]=v[1];break;}}
static const ArgD A127[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',1,0},{"stencil",'D',2,1}};
static void D127(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=1-1;break;case 9:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 10:o[0][0]=0;o[0][1]=2;o[1][0]=v[0];o[1][1]=v[1];break;}}
static const ArgD A128[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"stencil",'D',2,1}};
static void D128(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=1-1;break;case 9:o[0][0]=0;o[0][1]=2;o[1][0]=v[0];o[1][1]=v[1];break;}}
static const ArgD A129[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"r",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',1,0},{"stencil",'D',2,1}};
static void D129(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=1-1;break;case 9:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 10:o[0][0]=0;o[0][1]=2;o[1][0]=v[0];o[1][1]=v[1];break;}}
static const ArgD A130[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"r",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"stencil",'D',2,1}};
static void D130(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=1-1;break;case 9:o[0][0]=0;o[0][1]=2;o[1][0]=v[0];o[1][1]=v[1];break;}}
static const ArgD A131[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"dirfactor",'d',0,0},{"neufactor",'d',0,0},{"beta",'d',0,0},{"b0",'D',1,0},{"stencil",'D',2,1}};
static void D131(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=1-1;break;case 11:o[0][0]=v[0];o[0][1]=v[1]+1;break;case 12:o[0][0]=0;o[0][1]=2;o[1][0]=v[0];o[1][1]=v[1];break;}}
static const ArgD A132[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"dirfactor",'d',0,0},{"neufactor",'d',0,0},{"beta",'d',0,0},{"stencil",'D',2,1}};
static void D132(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=1-1;break;case 11:o[0][0]=0;o[0][1]=2;o[1][0]=v[0];o[1][1]=v[1];break;}}
static const ArgD A133[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"r",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"stencil",'D',2,1}};
static void D133(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=2;o[1][0]=v[0];o[1][1]=v[1];break;}}
static const ArgD A134[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"side",'i',0,0},{"stencil",'D',2,1}};
static void D134(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 5:o[0][0]=0;o[0][1]=2;o[1][0]=v[0];o[1][1]=v[1];break;}}
static const ArgD A135[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"plo0",'i',0,0},{"phi0",'i',0,0},{"side",'i',0,0},{"stencil",'D',2,0},{"gcw",'i',0,0},{"u",'D',1,0},{"rhs",'D',1,1}};
static void D135(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 5:o[0][0]=0;o[0][1]=2;o[1][0]=v[0];o[1][1]=v[1];break;case 7:o[0][0]=v[0]-v[6];o[0][1]=v[1]+v[6];break;case 8:o[0][0]=v[0];o[0][1]=v[1];break;}}
static const ArgD A136[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"bilo0",'i',0,0},{"bilo1",'i',0,0},{"bihi0",'i',0,0},{"bihi1",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',2,0},{"b1",'D',2,0},{"stencil",'D',3,1}};
static void D136(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 8:o[0][0]=0;o[0][1]=2-1;break;case 10:o[0][0]=v[4];o[0][1]=v[6]+1;o[1][0]=v[5];o[1][1]=v[7];break;case 11:o[0][0]=v[5];o[0][1]=v[7]+1;o[1][0]=v[4];o[1][1]=v[6];break;case 12:o[0][0]=0;o[0][1]=4;o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;}}
static const ArgD A137[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"stencil",'D',3,1}};
static void D137(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=2-1;break;case 6:o[0][0]=0;o[0][1]=4;o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;}}
static const ArgD A138[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"ailo0",'i',0,0},{"ailo1",'i',0,0},{"aihi0",'i',0,0},{"aihi1",'i',0,0},{"alpha",'d',0,0},{"a",'D',2,0},{"stencil",'D',3,1}};
static void D138(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 9:o[0][0]=v[4];o[0][1]=v[6];o[1][0]=v[5];o[1][1]=v[7];break;case 10:o[0][0]=0;o[0][1]=4;o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;}}
static const ArgD A139[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"alpha",'d',0,0},{"stencil",'D',3,1}};
static void D139(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 5:o[0][0]=0;o[0][1]=4;o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;}}
static const ArgD A140[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"stencil",'D',3,1}};
static void D140(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 4:o[0][0]=0;o[0][1]=4;o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;}}
static const ArgD A141[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',2,0},{"b1",'D',2,0},{"stencil",'D',3,1}};
static void D141(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 12:o[0][0]=0;o[0][1]=2-1;break;case 14:o[0][0]=v[0];o[0][1]=v[2]+1;o[1][0]=v[1];o[1][1]=v[3];break;case 15:o[0][0]=v[1];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[2];break;case 16:o[0][0]=0;o[0][1]=4;o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;}}
static const ArgD A142[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"stencil",'D',3,1}};
static void D142(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 12:o[0][0]=0;o[0][1]=2-1;break;case 14:o[0][0]=0;o[0][1]=4;o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;}}
static const ArgD A143[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"r",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',2,0},{"b1",'D',2,0},{"stencil",'D',3,1}};
static void D143(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 12:o[0][0]=0;o[0][1]=2-1;break;case 14:o[0][0]=v[0];o[0][1]=v[2]+1;o[1][0]=v[1];o[1][1]=v[3];break;case 15:o[0][0]=v[1];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[2];break;case 16:o[0][0]=0;o[0][1]=4;o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;}}
static const ArgD A144[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"r",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"stencil",'D',3,1}};
static void D144(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 12:o[0][0]=0;o[0][1]=2-1;break;case 14:o[0][0]=0;o[0][1]=4;o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;}}
static const ArgD A145[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"dirfactor",'d',0,0},{"neufactor",'d',0,0},{"beta",'d',0,0},{"b0",'D',2,0},{"b1",'D',2,0},{"stencil",'D',3,1}};
static void D145(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 12:o[0][0]=0;o[0][1]=2-1;break;case 16:o[0][0]=v[0];o[0][1]=v[2]+1;o[1][0]=v[1];o[1][1]=v[3];break;case 17:o[0][0]=v[1];o[0][1]=v[3]+1;o[1][0]=v[0];o[1][1]=v[2];break;case 18:o[0][0]=0;o[0][1]=4;o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;}}
static const ArgD A146[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"dirfactor",'d',0,0},{"neufactor",'d',0,0},{"beta",'d',0,0},{"stencil",'D',3,1}};
static void D146(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 12:o[0][0]=0;o[0][1]=2-1;break;case 16:o[0][0]=0;o[0][1]=4;o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;}}
static const ArgD A147[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"r",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"stencil",'D',3,1}};
static void D147(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 12:o[0][0]=0;o[0][1]=4;o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;}}
static const ArgD A148[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"stencil",'D',3,1}};
static void D148(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 10:o[0][0]=0;o[0][1]=4;o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;}}
static const ArgD A149[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"stencil",'D',3,0},{"gcw",'i',0,0},{"u",'D',2,0},{"rhs",'D',2,1}};
static void D149(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 10:o[0][0]=0;o[0][1]=4;o[1][0]=v[0];o[1][1]=v[2];o[2][0]=v[1];o[2][1]=v[3];break;case 12:o[0][0]=v[0]-v[11];o[0][1]=v[2]+v[11];o[1][0]=v[1]-v[11];o[1][1]=v[3]+v[11];break;case 13:o[0][0]=v[0];o[0][1]=v[2];o[1][0]=v[1];o[1][1]=v[3];break;}}
static const ArgD A150[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"bilo0",'i',0,0},{"bilo1",'i',0,0},{"bilo2",'i',0,0},{"bihi0",'i',0,0},{"bihi1",'i',0,0},{"bihi2",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',3,0},{"b1",'D',3,0},{"b2",'D',3,0},{"stencil",'D',4,1}};
static void D150(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 12:o[0][0]=0;o[0][1]=3-1;break;case 14:o[0][0]=v[6];o[0][1]=v[9]+1;o[1][0]=v[7];o[1][1]=v[10];o[2][0]=v[8];o[2][1]=v[11];break;case 15:o[0][0]=v[7];o[0][1]=v[10]+1;o[1][0]=v[8];o[1][1]=v[11];o[2][0]=v[6];o[2][1]=v[9];break;case 16:o[0][0]=v[8];o[0][1]=v[11]+1;o[1][0]=v[6];o[1][1]=v[9];o[2][0]=v[7];o[2][1]=v[10];break;case 17:o[0][0]=0;o[0][1]=6;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];o[3][0]=v[2];o[3][1]=v[5];break;}}
static const ArgD A151[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"stencil",'D',4,1}};
static void D151(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=3-1;break;case 8:o[0][0]=0;o[0][1]=6;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];o[3][0]=v[2];o[3][1]=v[5];break;}}
static const ArgD A152[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"ailo0",'i',0,0},{"ailo1",'i',0,0},{"ailo2",'i',0,0},{"aihi0",'i',0,0},{"aihi1",'i',0,0},{"aihi2",'i',0,0},{"alpha",'d',0,0},{"a",'D',3,0},{"stencil",'D',4,1}};
static void D152(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 13:o[0][0]=v[6];o[0][1]=v[9];o[1][0]=v[7];o[1][1]=v[10];o[2][0]=v[8];o[2][1]=v[11];break;case 14:o[0][0]=0;o[0][1]=6;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];o[3][0]=v[2];o[3][1]=v[5];break;}}
static const ArgD A153[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"alpha",'d',0,0},{"stencil",'D',4,1}};
static void D153(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 7:o[0][0]=0;o[0][1]=6;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];o[3][0]=v[2];o[3][1]=v[5];break;}}
static const ArgD A154[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"stencil",'D',4,1}};
static void D154(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 6:o[0][0]=0;o[0][1]=6;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];o[3][0]=v[2];o[3][1]=v[5];break;}}
static const ArgD A155[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',3,0},{"b1",'D',3,0},{"b2",'D',3,0},{"stencil",'D',4,1}};
static void D155(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 16:o[0][0]=0;o[0][1]=3-1;break;case 18:o[0][0]=v[0];o[0][1]=v[3]+1;o[1][0]=v[1];o[1][1]=v[4];o[2][0]=v[2];o[2][1]=v[5];break;case 19:o[0][0]=v[1];o[0][1]=v[4]+1;o[1][0]=v[2];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[3];break;case 20:o[0][0]=v[2];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];break;case 21:o[0][0]=0;o[0][1]=6;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];o[3][0]=v[2];o[3][1]=v[5];break;}}
static const ArgD A156[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"stencil",'D',4,1}};
static void D156(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 16:o[0][0]=0;o[0][1]=3-1;break;case 18:o[0][0]=0;o[0][1]=6;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];o[3][0]=v[2];o[3][1]=v[5];break;}}
static const ArgD A157[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"r",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"b0",'D',3,0},{"b1",'D',3,0},{"b2",'D',3,0},{"stencil",'D',4,1}};
static void D157(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 16:o[0][0]=0;o[0][1]=3-1;break;case 18:o[0][0]=v[0];o[0][1]=v[3]+1;o[1][0]=v[1];o[1][1]=v[4];o[2][0]=v[2];o[2][1]=v[5];break;case 19:o[0][0]=v[1];o[0][1]=v[4]+1;o[1][0]=v[2];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[3];break;case 20:o[0][0]=v[2];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];break;case 21:o[0][0]=0;o[0][1]=6;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];o[3][0]=v[2];o[3][1]=v[5];break;}}
static const ArgD A158[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"r",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"dx",'D',1,0},{"beta",'d',0,0},{"stencil",'D',4,1}};
static void D158(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 16:o[0][0]=0;o[0][1]=3-1;break;case 18:o[0][0]=0;o[0][1]=6;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];o[3][0]=v[2];o[3][1]=v[5];break;}}
static const ArgD A159[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"dirfactor",'d',0,0},{"neufactor",'d',0,0},{"beta",'d',0,0},{"b0",'D',3,0},{"b1",'D',3,0},{"b2",'D',3,0},{"stencil",'D',4,1}};
static void D159(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 16:o[0][0]=0;o[0][1]=3-1;break;case 20:o[0][0]=v[0];o[0][1]=v[3]+1;o[1][0]=v[1];o[1][1]=v[4];o[2][0]=v[2];o[2][1]=v[5];break;case 21:o[0][0]=v[1];o[0][1]=v[4]+1;o[1][0]=v[2];o[1][1]=v[5];o[2][0]=v[0];o[2][1]=v[3];break;case 22:o[0][0]=v[2];o[0][1]=v[5]+1;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];break;case 23:o[0][0]=0;o[0][1]=6;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];o[3][0]=v[2];o[3][1]=v[5];break;}}
static const ArgD A160[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"btype",'i',0,0},{"order",'i',0,0},{"dx",'D',1,0},{"dirfactor",'d',0,0},{"neufactor",'d',0,0},{"beta",'d',0,0},{"stencil",'D',4,1}};
static void D160(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 16:o[0][0]=0;o[0][1]=3-1;break;case 20:o[0][0]=0;o[0][1]=6;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];o[3][0]=v[2];o[3][1]=v[5];break;}}
static const ArgD A161[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"r",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"iorder",'i',0,0},{"stencil",'D',4,1}};
static void D161(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 16:o[0][0]=0;o[0][1]=6;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];o[3][0]=v[2];o[3][1]=v[5];break;}}
static const ArgD A162[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"stencil",'D',4,1}};
static void D162(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 14:o[0][0]=0;o[0][1]=6;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];o[3][0]=v[2];o[3][1]=v[5];break;}}
static const ArgD A163[]={{"lo0",'i',0,0},{"lo1",'i',0,0},{"lo2",'i',0,0},{"hi0",'i',0,0},{"hi1",'i',0,0},{"hi2",'i',0,0},{"plo0",'i',0,0},{"plo1",'i',0,0},{"plo2",'i',0,0},{"phi0",'i',0,0},{"phi1",'i',0,0},{"phi2",'i',0,0},{"dir",'i',0,0},{"side",'i',0,0},{"stencil",'D',4,0},{"gcw",'i',0,0},{"u",'D',3,0},{"rhs",'D',3,1}};
static void D163(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 14:o[0][0]=0;o[0][1]=6;o[1][0]=v[0];o[1][1]=v[3];o[2][0]=v[1];o[2][1]=v[4];o[3][0]=v[2];o[3][1]=v[5];break;case 16:o[0][0]=v[0]-v[15];o[0][1]=v[3]+v[15];o[1][0]=v[1]-v[15];o[1][1]=v[4]+v[15];o[2][0]=v[2]-v[15];o[2][1]=v[5]+v[15];break;case 17:o[0][0]=v[0];o[0][1]=v[3];o[1][0]=v[1];o[1][1]=v[4];o[2][0]=v[2];o[2][1]=v[5];break;}}
static const KernelD KERNELS[]={
{"applystencilatpoint1d","",14,A0,D0,"applystencil1d.f"},
{"applystencilonpatch1d","",13,A1,D1,"applystencil1d.f"},
{"applystencilatpoint2d","",17,A2,D2,"applystencil2d.f"},
{"applystencilonpatch2d","",15,A3,D3,"applystencil2d.f"},
{"applystencilatpoint3d","",20,A4,D4,"applystencil3d.f"},
{"applystencilonpatch3d","",17,A5,D5,"applystencil3d.f"},
{"adjcellcrsfinebdryrhs1d","",11,A6,D6,"celladjustrhs1d.f"},
{"celladjustsystemrhspatch1d","",10,A7,D7,"celladjustrhs1d.f"},
{"adjcellcrsfinebdryrhs2d","",16,A8,D8,"celladjustrhs2d.f"},
{"celladjustsystemrhspatch2d","",12,A9,D9,"celladjustrhs2d.f"},
{"adjcellcrsfinebdryrhs3d","",20,A10,D10,"celladjustrhs3d.f"},
{"cellblock1x1jacobi1d","",7,A11,D11,"cellblocksmooth1d.f"},
{"cellblock2x2jacobi1d","",9,A12,D12,"cellblocksmooth1d.f"},
{"cellblock1x1jacobi2d","",9,A13,D13,"cellblocksmooth2d.f"},
{"cellblock2x2jacobi2d","",11,A14,D14,"cellblocksmooth2d.f"},
{"creatematrix","",7,A15,D15,"cellblocksmooth3d.f"},
{"cellblockjacobi3d","",32,A16,D16,"cellblocksmooth3d.f"},
{"celldiffusionv1res1d","cd_apply_1d_cuda::diffusion_v1_res",14,A17,D17,"celldiffusionapply1d.f"},
{"celldiffusionv2res1d","cd_apply_1d_cuda::diffusion_v2_res",12,A18,D18,"celldiffusionapply1d.f"},
{"cellpoissonv1res1d","cd_apply_1d_cuda::poisson_v1_res",9,A19,D19,"celldiffusionapply1d.f"},
{"celldiffusionv1apply1d","cd_apply_1d_cuda::diffusion_v1_apply",12,A20,D20,"celldiffusionapply1d.f"},
{"celldiffusionv2apply1d","cd_apply_1d_cuda::diffusion_v2_apply",10,A21,D21,"celldiffusionapply1d.f"},
{"cellpoissonv2apply1d","cd_apply_1d_cuda::poisson_v2_apply",7,A22,D22,"celldiffusionapply1d.f"},
{"celldiffusionv1res2d","cd_apply_2d_cuda::diffusion_v1_res",17,A23,D23,"celldiffusionapply2d.f"},
{"celldiffusionv2res2d","cd_apply_2d_cuda::diffusion_v2_res",15,A24,D24,"celldiffusionapply2d.f"},
{"cellpoissonv1res2d","cd_apply_2d_cuda::poisson_v1_res",12,A25,D25,"celldiffusionapply2d.f"},
{"celldiffusionv1apply2d","cd_apply_2d_cuda::diffusion_v1_apply",15,A26,D26,"celldiffusionapply2d.f"},
{"celldiffusionv2apply2d","cd_apply_2d_cuda::diffusion_v2_apply",13,A27,D27,"celldiffusionapply2d.f"},
{"cellpoissonv2apply2d","cd_apply_2d_cuda::poisson_v2_apply",10,A28,D28,"celldiffusionapply2d.f"},
{"celldiffusionv1res3d","cd_apply_3d_cuda::diffusion_v1_res",20,A29,D29,"celldiffusionapply3d.f"},
{"celldiffusionv2res3d","cd_apply_3d_cuda::diffusion_v2_res",18,A30,D30,"celldiffusionapply3d.f"},
{"cellpoissonv1res3d","cd_apply_3d_cuda::poisson_v1_res",15,A31,D31,"celldiffusionapply3d.f"},
{"celldiffusionv1apply3d","cd_apply_3d_cuda::diffusion_v1_apply",18,A32,D32,"celldiffusionapply3d.f"},
{"celldiffusionv2apply3d","cd_apply_3d_cuda::diffusion_v2_apply",16,A33,D33,"celldiffusionapply3d.f"},
{"cellpoissonv2apply3d","cd_apply_3d_cuda::poisson_v2_apply",13,A34,D34,"celldiffusionapply3d.f"},
{"celldiffusionflux1d","cdf_1d_cuda::flux",7,A35,D35,"celldiffusionflux1d.f"},
{"cellpoissonflux1d","cdf_1d_cuda::poisson_flux",6,A36,D36,"celldiffusionflux1d.f"},
{"celldiffusionflux2d","cdf_2d_cuda::flux",11,A37,D37,"celldiffusionflux2d.f"},
{"cellpoissonflux2d","cdf_2d_cuda::poisson_flux",9,A38,D38,"celldiffusionflux2d.f"},
{"celldiffusionflux3d","cdf_3d_cuda::flux",15,A39,D39,"celldiffusionflux3d.f"},
{"cellpoissonflux3d","cdf_3d_cuda::poisson_flux",12,A40,D40,"celldiffusionflux3d.f"},
{"celldiffusionoffdiag1d","cd_stencil_1d_cuda::offdiag",9,A41,D41,"celldiffusionstencilcoeffs1d.f"},
{"cellpoissonoffdiag1d","cd_stencil_1d_cuda::poisson_offdiag",6,A42,D42,"celldiffusionstencilcoeffs1d.f"},
{"celldiffusionv1diag1d","cd_stencil_1d_cuda::v1diag",8,A43,D43,"celldiffusionstencilcoeffs1d.f"},
{"celldiffusionv2diag1d","cd_stencil_1d_cuda::v2diag",5,A44,D44,"celldiffusionstencilcoeffs1d.f"},
{"cellpoissondiag1d","cd_stencil_1d_cuda::poisson_diag",4,A45,D45,"celldiffusionstencilcoeffs1d.f"},
{"adjcelldiffusiondiag1d","cd_stencil_1d_cuda::adj_diag",12,A46,D46,"celldiffusionstencilcoeffs1d.f"},
{"adjcellpoissondiag1d","cd_stencil_1d_cuda::adj_poisson_diag",11,A47,D47,"celldiffusionstencilcoeffs1d.f"},
{"adjcelldiffusioncfdiag1d","cd_stencil_1d_cuda::adj_cf_diag",12,A48,D48,"celldiffusionstencilcoeffs1d.f"},
{"adjcellpoissoncfdiag1d","cd_stencil_1d_cuda::adj_poisson_cf_diag",11,A49,D49,"celldiffusionstencilcoeffs1d.f"},
{"adjcelldiffusionoffdiag1d","cd_stencil_1d_cuda::adj_offdiag",14,A50,D50,"celldiffusionstencilcoeffs1d.f"},
{"adjcellpoissonoffdiag1d","cd_stencil_1d_cuda::adj_poisson_offdiag",13,A51,D51,"celldiffusionstencilcoeffs1d.f"},
{"adjcelldiffusioncfoffdiag1d","cd_stencil_1d_cuda::adj_cf_offdiag",9,A52,D52,"celldiffusionstencilcoeffs1d.f"},
{"readjcelldiffusionoffdiag1d","cd_stencil_1d_cuda::readj_offdiag",7,A53,D53,"celldiffusionstencilcoeffs1d.f"},
{"adjcelldiffusioncfbdryrhs1d","cd_stencil_1d_cuda::adj_cf_bdryrhs",10,A54,D54,"celldiffusionstencilcoeffs1d.f"},
{"celldiffusionoffdiag2d","cd_stencil_2d_cuda::offdiag",14,A55,D55,"celldiffusionstencilcoeffs2d.f"},
{"cellpoissonoffdiag2d","cd_stencil_2d_cuda::poisson_offdiag",8,A56,D56,"celldiffusionstencilcoeffs2d.f"},
{"celldiffusionv1diag2d","cd_stencil_2d_cuda::v1diag",12,A57,D57,"celldiffusionstencilcoeffs2d.f"},
{"celldiffusionv2diag2d","cd_stencil_2d_cuda::v2diag",7,A58,D58,"celldiffusionstencilcoeffs2d.f"},
{"cellpoissondiag2d","cd_stencil_2d_cuda::poisson_diag",6,A59,D59,"celldiffusionstencilcoeffs2d.f"},
{"adjcelldiffusiondiag2d","cd_stencil_2d_cuda::adj_diag",18,A60,D60,"celldiffusionstencilcoeffs2d.f"},
{"adjcellpoissondiag2d","cd_stencil_2d_cuda::adj_poisson_diag",16,A61,D61,"celldiffusionstencilcoeffs2d.f"},
{"adjcelldiffusioncfdiag2d","cd_stencil_2d_cuda::adj_cf_diag",18,A62,D62,"celldiffusionstencilcoeffs2d.f"},
{"adjcellpoissoncfdiag2d","cd_stencil_2d_cuda::adj_poisson_cf_diag",16,A63,D63,"celldiffusionstencilcoeffs2d.f"},
{"adjcelldiffusionoffdiag2d","cd_stencil_2d_cuda::adj_offdiag",20,A64,D64,"celldiffusionstencilcoeffs2d.f"},
{"adjcellpoissonoffdiag2d","cd_stencil_2d_cuda::adj_poisson_offdiag",18,A65,D65,"celldiffusionstencilcoeffs2d.f"},
{"adjcelldiffusioncfoffdiag2d","cd_stencil_2d_cuda::adj_cf_offdiag",14,A66,D66,"celldiffusionstencilcoeffs2d.f"},
{"readjcelldiffusionoffdiag2d","cd_stencil_2d_cuda::readj_offdiag",12,A67,D67,"celldiffusionstencilcoeffs2d.f"},
{"adjcelldiffusioncfbdryrhs2d","cd_stencil_2d_cuda::adj_cf_bdryrhs",15,A68,D68,"celldiffusionstencilcoeffs2d.f"},
{"celldiffusionoffdiag3d","cd_stencil_3d_cuda::offdiag",19,A69,D69,"celldiffusionstencilcoeffs3d.f"},
{"cellpoissonoffdiag3d","cd_stencil_3d_cuda::poisson_offdiag",10,A70,D70,"celldiffusionstencilcoeffs3d.f"},
{"celldiffusionv1diag3d","cd_stencil_3d_cuda::v1diag",16,A71,D71,"celldiffusionstencilcoeffs3d.f"},
{"celldiffusionv2diag3d","cd_stencil_3d_cuda::v2diag",9,A72,D72,"celldiffusionstencilcoeffs3d.f"},
{"cellpoissondiag3d","cd_stencil_3d_cuda::poisson_diag",8,A73,D73,"celldiffusionstencilcoeffs3d.f"},
{"adjcelldiffusiondiag3d","cd_stencil_3d_cuda::adj_diag",23,A74,D74,"celldiffusionstencilcoeffs3d.f"},
{"adjcellpoissondiag3d","cd_stencil_3d_cuda::adj_poisson_diag",20,A75,D75,"celldiffusionstencilcoeffs3d.f"},
{"adjcelldiffusioncfdiag3d","cd_stencil_3d_cuda::adj_cf_diag",23,A76,D76,"celldiffusionstencilcoeffs3d.f"},
{"adjcellpoissoncfdiag3d","cd_stencil_3d_cuda::adj_poisson_cf_diag",20,A77,D77,"celldiffusionstencilcoeffs3d.f"},
{"adjcelldiffusionoffdiag3d","cd_stencil_3d_cuda::adj_offdiag",25,A78,D78,"celldiffusionstencilcoeffs3d.f"},
{"adjcellpoissonoffdiag3d","cd_stencil_3d_cuda::adj_poisson_offdiag",22,A79,D79,"celldiffusionstencilcoeffs3d.f"},
{"adjcelldiffusioncfoffdiag3d","cd_stencil_3d_cuda::adj_cf_offdiag",18,A80,D80,"celldiffusionstencilcoeffs3d.f"},
{"readjcelldiffusionoffdiag3d","cd_stencil_3d_cuda::readj_offdiag",16,A81,D81,"celldiffusionstencilcoeffs3d.f"},
{"adjcelldiffusioncfbdryrhs3d","cd_stencil_3d_cuda::adj_cf_bdryrhs",19,A82,D82,"celldiffusionstencilcoeffs3d.f"},
{"cellsetcorrectionbc1d","cd_correct_bc_1d_cuda::set_bc",14,A83,D83,"cellsetcorrectionbc1d.f"},
{"cellsetpoissoncorrectionbc1d","cd_correct_bc_1d_cuda::set_poisson_bc",12,A84,D84,"cellsetcorrectionbc1d.f"},
{"cellsetcorrectionbc2d","cd_correct_bc_2d_cuda::set_bc",18,A85,D85,"cellsetcorrectionbc2d.f"},
{"cellsetpoissoncorrectionbc2d","cd_correct_bc_2d_cuda::set_poisson_bc",15,A86,D86,"cellsetcorrectionbc2d.f"},
{"cellsetinteriorcornerbc2d","cd_correct_bc_2d_cuda::set_corner_bc",15,A87,D87,"cellsetcorrectionbc2d.f"},
{"cellsethomogenousbc2d","cd_correct_bc_2d_cuda::set_homogenous_bc",9,A88,D88,"cellsetcorrectionbc2d.f"},
{"cellsetcorrectionbc3d","cd_correct_bc_3d_cuda::set_bc",21,A89,D89,"cellsetcorrectionbc3d.f"},
{"cellsetpoissoncorrectionbc3d","cd_correct_bc_3d_cuda::set_poisson_bc",17,A90,D90,"cellsetcorrectionbc3d.f"},
{"celljacobi1d","",13,A91,D91,"cellsmooth1d.f"},
{"cellgs1d","",13,A92,D92,"cellsmooth1d.f"},
{"cellrbgs1d","",14,A93,D93,"cellsmooth1d.f"},
{"celljacobi2d","",21,A94,D94,"cellsmooth2d.f"},
{"cellgs2d","",21,A95,D95,"cellsmooth2d.f"},
{"cellrbgs2d","",22,A96,D96,"cellsmooth2d.f"},
{"cells5rbgs2d","",20,A97,D97,"cellsmooth2d.f"},
{"cells9rbgs2d","",20,A98,D98,"cellsmooth2d.f"},
{"celljacobi3d","",29,A99,D99,"cellsmooth3d.f"},
{"cellgs3d","",29,A100,D100,"cellsmooth3d.f"},
{"cellrbgs3d","",30,A101,D101,"cellsmooth3d.f"},
{"cells7rbgs3d","",28,A102,D102,"cellsmooth3d.f"},
{"ccellblkjacobi3d","",16,A103,D103,"cellsmooth3d.f"},
{"copycoarsetofine3d","coarse_to_fine::copy",29,A104,D104,"copycoarsetofine.f"},
{"copycoarsetofinecorner3d","coarse_to_fine::copy_corner",27,A105,D105,"copycoarsetofine.f"},
{"linearextrap","",12,A106,D106,"copycoarsetofine.f"},
{"nodediffusionv1apply1d","",16,A107,D107,"nodediffusionapply1d.f"},
{"nodediffusionv2apply1d","",14,A108,D108,"nodediffusionapply1d.f"},
{"nodepoissonapply1d","",11,A109,D109,"nodediffusionapply1d.f"},
{"nodediffusionv1apply2d","",19,A110,D110,"nodediffusionapply2d.f"},
{"nodediffusionv2apply2d","",17,A111,D111,"nodediffusionapply2d.f"},
{"nodepoissonapply2d","",14,A112,D112,"nodediffusionapply2d.f"},
{"nodediffusionv1apply3d","",22,A113,D113,"nodediffusionapply3d.f"},
{"nodediffusionv2apply3d","",20,A114,D114,"nodediffusionapply3d.f"},
{"nodepoissonapply3d","",17,A115,D115,"nodediffusionapply3d.f"},
{"nodediffusionflux1d","",7,A116,D116,"nodediffusionflux1d.f"},
{"nodepoissonflux1d","",6,A117,D117,"nodediffusionflux1d.f"},
{"nodediffusionflux2d","",11,A118,D118,"nodediffusionflux2d.f"},
{"nodepoissonflux2d","",9,A119,D119,"nodediffusionflux2d.f"},
{"nodediffusionflux3d","",15,A120,D120,"nodediffusionflux3d.f"},
{"nodepoissonflux3d","",12,A121,D121,"nodediffusionflux3d.f"},
{"nodediffusionoffdiag1d","",8,A122,D122,"nodediffusionstencilcoeffs1d.f"},
{"nodepoissonoffdiag1d","",5,A123,D123,"nodediffusionstencilcoeffs1d.f"},
{"nodediffusionv1diag1d","",7,A124,D124,"nodediffusionstencilcoeffs1d.f"},
{"nodediffusionv2diag1d","",4,A125,D125,"nodediffusionstencilcoeffs1d.f"},
{"nodepoissondiag1d","",3,A126,D126,"nodediffusionstencilcoeffs1d.f"},
{"adjnodediffusiondiag1d","",11,A127,D127,"nodediffusionstencilcoeffs1d.f"},
{"adjnodepoissondiag1d","",10,A128,D128,"nodediffusionstencilcoeffs1d.f"},
{"adjnodediffusioncfdiag1d","",11,A129,D129,"nodediffusionstencilcoeffs1d.f"},
{"adjnodepoissoncfdiag1d","",10,A130,D130,"nodediffusionstencilcoeffs1d.f"},
{"adjnodediffusionoffdiag1d","",13,A131,D131,"nodediffusionstencilcoeffs1d.f"},
{"adjnodepoissonoffdiag1d","",12,A132,D132,"nodediffusionstencilcoeffs1d.f"},
{"adjnodediffusioncfoffdiag1d","",8,A133,D133,"nodediffusionstencilcoeffs1d.f"},
{"readjnodediffusionoffdiag1d","",6,A134,D134,"nodediffusionstencilcoeffs1d.f"},
{"adjnodediffusioncfbdryrhs1d","",9,A135,D135,"nodediffusionstencilcoeffs1d.f"},
{"nodediffusionoffdiag2d","",13,A136,D136,"nodediffusionstencilcoeffs2d.f"},
{"nodepoissonoffdiag2d","",7,A137,D137,"nodediffusionstencilcoeffs2d.f"},
{"nodediffusionv1diag2d","",11,A138,D138,"nodediffusionstencilcoeffs2d.f"},
{"nodediffusionv2diag2d","",6,A139,D139,"nodediffusionstencilcoeffs2d.f"},
{"nodepoissondiag2d","",5,A140,D140,"nodediffusionstencilcoeffs2d.f"},
{"adjnodediffusiondiag2d","",17,A141,D141,"nodediffusionstencilcoeffs2d.f"},
{"adjnodepoissondiag2d","",15,A142,D142,"nodediffusionstencilcoeffs2d.f"},
{"adjnodediffusioncfdiag2d","",17,A143,D143,"nodediffusionstencilcoeffs2d.f"},
{"adjnodepoissoncfdiag2d","",15,A144,D144,"nodediffusionstencilcoeffs2d.f"},
{"adjnodediffusionoffdiag2d","",19,A145,D145,"nodediffusionstencilcoeffs2d.f"},
{"adjnodepoissonoffdiag2d","",17,A146,D146,"nodediffusionstencilcoeffs2d.f"},
{"adjnodediffusioncfoffdiag2d","",13,A147,D147,"nodediffusionstencilcoeffs2d.f"},
{"readjnodediffusionoffdiag2d","",11,A148,D148,"nodediffusionstencilcoeffs2d.f"},
{"adjnodediffusioncfbdryrhs2d","",14,A149,D149,"nodediffusionstencilcoeffs2d.f"},
{"nodediffusionoffdiag3d","",18,A150,D150,"nodediffusionstencilcoeffs3d.f"},
{"nodepoissonoffdiag3d","",9,A151,D151,"nodediffusionstencilcoeffs3d.f"},
{"nodediffusionv1diag3d","",15,A152,D152,"nodediffusionstencilcoeffs3d.f"},
{"nodediffusionv2diag3d","",8,A153,D153,"nodediffusionstencilcoeffs3d.f"},
{"nodepoissondiag3d","",7,A154,D154,"nodediffusionstencilcoeffs3d.f"},
{"adjnodediffusiondiag3d","",22,A155,D155,"nodediffusionstencilcoeffs3d.f"},
{"adjnodepoissondiag3d","",19,A156,D156,"nodediffusionstencilcoeffs3d.f"},
{"adjnodediffusioncfdiag3d","",22,A157,D157,"nodediffusionstencilcoeffs3d.f"},
{"adjnodepoissoncfdiag3d","",19,A158,D158,"nodediffusionstencilcoeffs3d.f"},
{"adjnodediffusionoffdiag3d","",24,A159,D159,"nodediffusionstencilcoeffs3d.f"},
{"adjnodepoissonoffdiag3d","",21,A160,D160,"nodediffusionstencilcoeffs3d.f"},
{"adjnodediffusioncfoffdiag3d","",17,A161,D161,"nodediffusionstencilcoeffs3d.f"},
{"readjnodediffusionoffdiag3d","",15,A162,D162,"nodediffusionstencilcoeffs3d.f"},
{"adjnodediffusioncfbdryrhs3d","",18,A163,D163,"nodediffusionstencilcoeffs3d.f"}};

static void DH8_0(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20]+1;break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_0[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_1(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20]+1;break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_1[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_2(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14]+1;break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10]+1;break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_2[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_3(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14]+1;break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10]+1;break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20]+1;break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_3[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_4(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10]+1;break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_4[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_5(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14]+1;break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11]+1;break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_5[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_6(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14]+1;break;}}
static const ArgD AH8_6[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_7(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20]+1;break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_7[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_8(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11]+1;break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_8[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_9(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14]+1;break;}}
static const ArgD AH8_9[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_10(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11]+1;break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_10[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_11(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_11[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_12(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10]+1;o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11]+1;break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_12[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_13(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10]+1;o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16]+1;o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_13[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_14(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14]+1;o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_14[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_15(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14]+1;break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_15[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_16(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10]+1;break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22]+1;break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_16[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_17(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_17[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_18(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20]+1;o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_18[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_19(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10]+1;o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16]+1;break;}}
static const ArgD AH8_19[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_20(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14]+1;break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11]+1;o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_20[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_21(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10]+1;break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20]+1;break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_21[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_22(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11]+1;o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_22[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_23(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_23[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_24(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10]+1;break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_24[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_25(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20]+1;o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_25[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_26(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_26[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_27(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_27[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_28(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20]+1;o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14]+1;o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_28[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_29(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_29[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_30(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14]+1;break;}}
static const ArgD AH8_30[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_31(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22]+1;break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_31[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_32(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18]+1;o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24]+1;o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_32[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_33(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_33[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_34(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11]+1;break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_34[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_35(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18]+1;o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10]+1;o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_35[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_36(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11]+1;o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20]+1;o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_36[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_37(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_37[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_38(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10]+1;o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_38[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_39(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18]+1;o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14]+1;break;}}
static const ArgD AH8_39[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_40(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10]+1;o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11]+1;break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_40[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_41(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11]+1;o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24]+1;break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_41[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_42(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22]+1;break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16]+1;break;}}
static const ArgD AH8_42[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_43(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10]+1;break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_43[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_44(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11]+1;o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_44[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_45(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_45[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_46(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10]+1;o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24]+1;o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_46[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_47(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_47[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_48(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11]+1;break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_48[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_49(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_49[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_50(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10]+1;break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_50[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_51(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14]+1;break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11]+1;break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20]+1;break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_51[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_52(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_52[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_53(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10]+1;break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_53[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_54(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_54[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_55(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22]+1;break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_55[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_56(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14]+1;break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_56[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_57(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14]+1;break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16]+1;o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_57[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_58(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14]+1;break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10]+1;break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11]+1;o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_58[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_59(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_59[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_60(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11]+1;o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_60[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_61(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24]+1;o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_61[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_62(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_62[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_63(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11]+1;o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_63[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_64(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11]+1;o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_64[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_65(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18]+1;o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11]+1;break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16]+1;break;}}
static const ArgD AH8_65[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_66(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_66[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_67(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_67[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_68(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14]+1;o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_68[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_69(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_69[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_70(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14]+1;break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_70[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_71(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_71[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_72(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_72[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_73(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_73[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_74(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10]+1;o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_74[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_75(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_75[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_76(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18]+1;break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_76[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_77(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14]+1;o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_77[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_78(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10]+1;o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11]+1;o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_78[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_79(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_79[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_80(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16]+1;o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_80[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_81(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20]+1;o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_81[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_82(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_82[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_83(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_83[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_84(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_84[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_85(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_85[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_86(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10]+1;o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14]+1;o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_86[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_87(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11]+1;o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20]+1;o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14]+1;o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_87[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_88(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10]+1;o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20]+1;o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_88[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_89(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11]+1;o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_89[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_90(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14]+1;o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_90[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_91(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_91[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_92(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10]+1;break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24]+1;o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_92[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_93(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10]+1;o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_93[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_94(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_94[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_95(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11]+1;o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18]+1;o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_95[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_96(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24]+1;o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_96[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_97(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16]+1;break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_97[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_98(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11]+1;o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_98[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_99(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_99[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_100(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[2]-v[9]-v[15];o[2][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_100[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_101(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11]+1;break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_101[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_102(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24]+1;o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_102[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_103(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11]+1;o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_103[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_104(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_104[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_105(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[4]-v[12]-v[23];o[2][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];o[2][0]=v[4]-v[12]-v[17];o[2][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_105[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_106(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];o[2][0]=v[2]-v[12]-v[21];o[2][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_106[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_107(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14]+1;break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];o[2][0]=v[2]-v[12]-v[15];o[2][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_107[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_108(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];o[2][0]=v[0]-v[12]-v[19];o[2][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];o[2][0]=v[0]-v[12]-v[13];o[2][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_108[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_109(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11]+1;break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_109[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_110(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18]+1;break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10]+1;break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11]+1;o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_110[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_111(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10]+1;break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_111[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_112(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18]+1;break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_112[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_113(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[0]-v[12]-v[13];o[1][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_113[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_114(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[0]-v[12]-v[19];o[1][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_114[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_115(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_115[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_116(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18]+1;o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_116[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_117(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16]+1;o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_117[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_118(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_118[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_119(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10]+1;break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11]+1;break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_119[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_120(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_120[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_121(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];o[1][0]=v[2]-v[12]-v[21];o[1][1]=v[3]+v[12]+v[22];break;case 36:o[0][0]=v[2]-v[12]-v[15];o[0][1]=v[3]+v[12]+v[16];o[1][0]=v[4]-v[12]-v[17];o[1][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_121[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_122(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12]-v[21];o[0][1]=v[3]+v[12]+v[22];o[1][0]=v[4]-v[12]-v[23];o[1][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];o[1][0]=v[2]-v[12]-v[15];o[1][1]=v[3]+v[12]+v[16];break;}}
static const ArgD AH8_122[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_123(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14]+1;break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10]+1;break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_123[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_124(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]-v[12]-v[19];o[0][1]=v[1]+v[12]+v[20];break;case 36:o[0][0]=v[0]-v[12]-v[13];o[0][1]=v[1]+v[12]+v[14];break;}}
static const ArgD AH8_124[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_125(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18]+1;break;}}
static const ArgD AH8_125[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_126(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];break;case 35:o[0][0]=v[4]-v[12]-v[23];o[0][1]=v[5]+v[12]+v[24];break;case 36:o[0][0]=v[4]-v[12]-v[17];o[0][1]=v[5]+v[12]+v[18];break;}}
static const ArgD AH8_126[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_127(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]*(2+std::labs(v[25]))-v[12];o[0][1]=v[1]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];break;case 36:o[0][0]=v[0]*(2+std::labs(v[25]))-v[12];o[0][1]=v[1]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];break;}}
static const ArgD AH8_127[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_128(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]*(2+std::labs(v[25]))-v[12];o[0][1]=v[3]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];break;case 36:o[0][0]=v[2]*(2+std::labs(v[25]))-v[12];o[0][1]=v[3]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];break;}}
static const ArgD AH8_128[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH8_129(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 35:o[0][0]=v[2]-v[12];o[0][1]=v[3]+v[12];o[1][0]=v[0]*(2+std::labs(v[25]))-v[12];o[1][1]=v[1]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];break;case 36:o[0][0]=v[2]-v[12];o[0][1]=v[3]+v[12];o[1][0]=v[0]*(2+std::labs(v[25]))-v[12];o[1][1]=v[1]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];break;}}
static const ArgD AH8_129[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_130(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[2]*(2+std::labs(v[25]))-v[12];o[0][1]=v[3]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];o[1][0]=v[0]-v[12];o[1][1]=v[1]+v[12];break;case 36:o[0][0]=v[2]*(2+std::labs(v[25]))-v[12];o[0][1]=v[3]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];o[1][0]=v[0]-v[12];o[1][1]=v[1]+v[12];break;}}
static const ArgD AH8_130[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_131(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[4]-v[9]-v[17];o[1][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[2]-v[10];o[0][1]=v[3]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];break;case 35:o[0][0]=v[4]*(2+std::labs(v[25]))-v[12];o[0][1]=v[5]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];o[1][0]=v[2]-v[12];o[1][1]=v[3]+v[12];break;case 36:o[0][0]=v[2]-v[12];o[0][1]=v[3]+v[12];o[1][0]=v[4]*(2+std::labs(v[25]))-v[12];o[1][1]=v[5]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];break;}}
static const ArgD AH8_131[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_132(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]*(2+std::labs(v[25]))-v[12];o[0][1]=v[1]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];o[1][0]=v[4]-v[12];o[1][1]=v[5]+v[12];break;case 36:o[0][0]=v[4]-v[12];o[0][1]=v[5]+v[12];o[1][0]=v[0]*(2+std::labs(v[25]))-v[12];o[1][1]=v[1]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];break;}}
static const ArgD AH8_132[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH8_133(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[4]-v[10];o[1][1]=v[5]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[0]*(2+std::labs(v[25]))-v[12];o[0][1]=v[1]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];o[1][0]=v[2]-v[12];o[1][1]=v[3]+v[12];o[2][0]=v[4]-v[12];o[2][1]=v[5]+v[12];break;case 36:o[0][0]=v[2]-v[12];o[0][1]=v[3]+v[12];o[1][0]=v[0]*(2+std::labs(v[25]))-v[12];o[1][1]=v[1]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];o[2][0]=v[4]-v[12];o[2][1]=v[5]+v[12];break;}}
static const ArgD AH8_133[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_134(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[0]-v[9]-v[13];o[0][1]=v[1]+v[9]+v[14];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[4]-v[12];o[0][1]=v[5]+v[12];o[1][0]=v[0]-v[12];o[1][1]=v[1]+v[12];o[2][0]=v[2]*(2+std::labs(v[25]))-v[12];o[2][1]=v[3]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];break;case 36:o[0][0]=v[4]-v[12];o[0][1]=v[5]+v[12];o[1][0]=v[0]-v[12];o[1][1]=v[1]+v[12];o[2][0]=v[2]*(2+std::labs(v[25]))-v[12];o[2][1]=v[3]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];break;}}
static const ArgD AH8_134[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_135(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[0]-v[10];o[2][1]=v[1]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[2]-v[11];o[1][1]=v[3]+v[11];o[2][0]=v[0]-v[11];o[2][1]=v[1]+v[11];break;case 35:o[0][0]=v[2]-v[12];o[0][1]=v[3]+v[12];o[1][0]=v[4]-v[12];o[1][1]=v[5]+v[12];o[2][0]=v[0]*(2+std::labs(v[25]))-v[12];o[2][1]=v[1]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];break;case 36:o[0][0]=v[2]-v[12];o[0][1]=v[3]+v[12];o[1][0]=v[4]-v[12];o[1][1]=v[5]+v[12];o[2][0]=v[0]*(2+std::labs(v[25]))-v[12];o[2][1]=v[1]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];break;}}
static const ArgD AH8_135[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_136(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[4]-v[9]-v[17];o[0][1]=v[5]+v[9]+v[18];o[1][0]=v[2]-v[9]-v[15];o[1][1]=v[3]+v[9]+v[16];o[2][0]=v[0]-v[9]-v[13];o[2][1]=v[1]+v[9]+v[14];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[4]-v[11];o[0][1]=v[5]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[4]-v[12];o[0][1]=v[5]+v[12];o[1][0]=v[2]-v[12];o[1][1]=v[3]+v[12];o[2][0]=v[0]*(2+std::labs(v[25]))-v[12];o[2][1]=v[1]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];break;case 36:o[0][0]=v[2]-v[12];o[0][1]=v[3]+v[12];o[1][0]=v[0]*(2+std::labs(v[25]))-v[12];o[1][1]=v[1]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];o[2][0]=v[4]-v[12];o[2][1]=v[5]+v[12];break;}}
static const ArgD AH8_136[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_137(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[4]-v[10];o[0][1]=v[5]+v[10];o[1][0]=v[0]-v[10];o[1][1]=v[1]+v[10];o[2][0]=v[2]-v[10];o[2][1]=v[3]+v[10];break;case 34:o[0][0]=v[0]-v[11];o[0][1]=v[1]+v[11];o[1][0]=v[4]-v[11];o[1][1]=v[5]+v[11];o[2][0]=v[2]-v[11];o[2][1]=v[3]+v[11];break;case 35:o[0][0]=v[0]-v[12];o[0][1]=v[1]+v[12];o[1][0]=v[4]*(2+std::labs(v[25]))-v[12];o[1][1]=v[5]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];o[2][0]=v[2]-v[12];o[2][1]=v[3]+v[12];break;case 36:o[0][0]=v[2]-v[12];o[0][1]=v[3]+v[12];o[1][0]=v[4]*(2+std::labs(v[25]))-v[12];o[1][1]=v[5]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];o[2][0]=v[0]-v[12];o[2][1]=v[1]+v[12];break;}}
static const ArgD AH8_137[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH8_138(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 32:o[0][0]=v[2]-v[9]-v[15];o[0][1]=v[3]+v[9]+v[16];o[1][0]=v[0]-v[9]-v[13];o[1][1]=v[1]+v[9]+v[14];o[2][0]=v[4]-v[9]-v[17];o[2][1]=v[5]+v[9]+v[18];break;case 33:o[0][0]=v[0]-v[10];o[0][1]=v[1]+v[10];o[1][0]=v[2]-v[10];o[1][1]=v[3]+v[10];o[2][0]=v[4]-v[10];o[2][1]=v[5]+v[10];break;case 34:o[0][0]=v[2]-v[11];o[0][1]=v[3]+v[11];o[1][0]=v[0]-v[11];o[1][1]=v[1]+v[11];o[2][0]=v[4]-v[11];o[2][1]=v[5]+v[11];break;case 35:o[0][0]=v[0]-v[12];o[0][1]=v[1]+v[12];o[1][0]=v[2]-v[12];o[1][1]=v[3]+v[12];o[2][0]=v[4]*(2+std::labs(v[25]))-v[12];o[2][1]=v[5]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];break;case 36:o[0][0]=v[4]*(2+std::labs(v[25]))-v[12];o[0][1]=v[5]*(2+std::labs(v[25]))+1+std::labs(v[25])+v[12];o[1][0]=v[0]-v[12];o[1][1]=v[1]+v[12];o[2][0]=v[2]-v[12];o[2][1]=v[3]+v[12];break;}}
static const ArgD AH8_138[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
#define HARNESS_08 {"e08_00","C08",37,AH8_0,DH8_0,"1D1i"},{"e08_01","C08",37,AH8_1,DH8_1,"1D1i"},{"e08_02","C08",37,AH8_2,DH8_2,"1D0i"},{"e08_03","C08",37,AH8_3,DH8_3,"1D1i"},{"e08_04","C08",37,AH8_4,DH8_4,"1L1i"},{"e08_05","C08",37,AH8_5,DH8_5,"1L1i"},{"e08_06","C08",37,AH8_6,DH8_6,"1S0i"},{"e08_07","C08",37,AH8_7,DH8_7,"1S1i"},{"e08_08","C08",37,AH8_8,DH8_8,"1S1i"},{"e08_09","C08",37,AH8_9,DH8_9,"1D0i"},{"e08_10","C08",37,AH8_10,DH8_10,"1S0i"},{"e08_11","C08",37,AH8_11,DH8_11,"1S0i"},{"e08_12","C08",37,AH8_12,DH8_12,"2D1ij"},{"e08_13","C08",37,AH8_13,DH8_13,"2D1ij"},{"e08_14","C08",37,AH8_14,DH8_14,"2D0ij"},{"e08_15","C08",37,AH8_15,DH8_15,"2D2ij"},{"e08_16","C08",37,AH8_16,DH8_16,"2D1ij"},{"e08_17","C08",37,AH8_17,DH8_17,"2D1ij"},{"e08_18","C08",37,AH8_18,DH8_18,"2D0ij"},{"e08_19","C08",37,AH8_19,DH8_19,"2L0ij"},{"e08_20","C08",37,AH8_20,DH8_20,"2L1ij"},{"e08_21","C08",37,AH8_21,DH8_21,"2S0ij"},{"e08_22","C08",37,AH8_22,DH8_22,"2S1ij"},{"e08_23","C08",37,AH8_23,DH8_23,"2S0ij"},{"e08_24","C08",37,AH8_24,DH8_24,"2D2ij"},{"e08_25","C08",37,AH8_25,DH8_25,"2D2ij"},{"e08_26","C08",37,AH8_26,DH8_26,"2D0ij"},{"e08_27","C08",37,AH8_27,DH8_27,"3D1ijk"},{"e08_28","C08",37,AH8_28,DH8_28,"3D2ijk"},{"e08_29","C08",37,AH8_29,DH8_29,"3D2ijk"},{"e08_30","C08",37,AH8_30,DH8_30,"3D0ijk"},{"e08_31","C08",37,AH8_31,DH8_31,"3D2ijk"},{"e08_32","C08",37,AH8_32,DH8_32,"3D1ijk"},{"e08_33","C08",37,AH8_33,DH8_33,"3D1ijk"},{"e08_34","C08",37,AH8_34,DH8_34,"3L1ijk"},{"e08_35","C08",37,AH8_35,DH8_35,"3L1ijk"},{"e08_36","C08",37,AH8_36,DH8_36,"3S1ijk"},{"e08_37","C08",37,AH8_37,DH8_37,"3S0ijk"},{"e08_38","C08",37,AH8_38,DH8_38,"3S0ijk"},{"e08_39","C08",37,AH8_39,DH8_39,"3D1ijk"},{"e08_40","C08",37,AH8_40,DH8_40,"3S2ijk"},{"e08_41","C08",37,AH8_41,DH8_41,"3S0ijk"},{"e08_42","C08",37,AH8_42,DH8_42,"1D0j"},{"e08_43","C08",37,AH8_43,DH8_43,"1L1k"},{"e08_44","C08",37,AH8_44,DH8_44,"2D1ik"},{"e08_45","C08",37,AH8_45,DH8_45,"2S0jk"},{"e08_46","C08",37,AH8_46,DH8_46,"2D2ik"},{"e08_47","C08",37,AH8_47,DH8_47,"2D0jk"},{"e08_48","C08",37,AH8_48,DH8_48,"1D2i"},{"e08_49","C08",37,AH8_49,DH8_49,"1S0i"},{"e08_50","C08",37,AH8_50,DH8_50,"1E2i"},{"e08_51","C08",37,AH8_51,DH8_51,"1E2i"},{"e08_52","C08",37,AH8_52,DH8_52,"1D1i"},{"e08_53","C08",37,AH8_53,DH8_53,"1D1i"},{"e08_54","C08",37,AH8_54,DH8_54,"2D1ij"},{"e08_55","C08",37,AH8_55,DH8_55,"2D1ij"},{"e08_56","C08",37,AH8_56,DH8_56,"2E1ij"},{"e08_57","C08",37,AH8_57,DH8_57,"2E1ij"},{"e08_58","C08",37,AH8_58,DH8_58,"2D1ij"},{"e08_59","C08",37,AH8_59,DH8_59,"2D0ij"},{"e08_60","C08",37,AH8_60,DH8_60,"3D2ijk"},{"e08_61","C08",37,AH8_61,DH8_61,"3S2ijk"},{"e08_62","C08",37,AH8_62,DH8_62,"3E1ijk"},{"e08_63","C08",37,AH8_63,DH8_63,"3E1ijk"},{"e08_64","C08",37,AH8_64,DH8_64,"3D1ijk"},{"e08_65","C08",37,AH8_65,DH8_65,"3D2ijk"},{"e08_s00","C08",37,AH8_66,DH8_66,"2D1ij"},{"e08_s01","C08",37,AH8_67,DH8_67,"2D1ij"},{"e08_s02","C08",37,AH8_68,DH8_68,"2D1ij"},{"e08_s03","C08",37,AH8_69,DH8_69,"2D1ij"},{"e08_s04","C08",37,AH8_70,DH8_70,"2D1ij"},{"e08_s05","C08",37,AH8_71,DH8_71,"2D1ij"},{"e08_s06","C08",37,AH8_72,DH8_72,"2D1ij"},{"e08_s07","C08",37,AH8_73,DH8_73,"3D1ijk"},{"e08_s08","C08",37,AH8_74,DH8_74,"3D1ijk"},{"e08_s09","C08",37,AH8_75,DH8_75,"3D1ijk"},{"e08_s10","C08",37,AH8_76,DH8_76,"3D1ijk"},{"e08_s11","C08",37,AH8_77,DH8_77,"3D1ijk"},{"e08_s12","C08",37,AH8_78,DH8_78,"3D1ijk"},{"e08_s13","C08",37,AH8_79,DH8_79,"3D1ijk"},{"e08_s14","C08",37,AH8_80,DH8_80,"3D1ijk"},{"e08_s15","C08",37,AH8_81,DH8_81,"3D1ijk"},{"e08_s16","C08",37,AH8_82,DH8_82,"3D1ijk"},{"e08_s17","C08",37,AH8_83,DH8_83,"3D1ijk"},{"e08_s18","C08",37,AH8_84,DH8_84,"3D1ijk"},{"e08_s19","C08",37,AH8_85,DH8_85,"3D1ijk"},{"e08_s20","C08",37,AH8_86,DH8_86,"3D1ijk"},{"e08_s21","C08",37,AH8_87,DH8_87,"3D1ijk"},{"e08_s22","C08",37,AH8_88,DH8_88,"3D1ijk"},{"e08_s23","C08",37,AH8_89,DH8_89,"3D1ijk"},{"e08_s24","C08",37,AH8_90,DH8_90,"3D1ijk"},{"e08_s25","C08",37,AH8_91,DH8_91,"3D1ijk"},{"e08_s26","C08",37,AH8_92,DH8_92,"3D1ijk"},{"e08_s27","C08",37,AH8_93,DH8_93,"3D1ijk"},{"e08_s28","C08",37,AH8_94,DH8_94,"3D1ijk"},{"e08_s29","C08",37,AH8_95,DH8_95,"3D1ijk"},{"e08_s30","C08",37,AH8_96,DH8_96,"3D1ijk"},{"e08_s31","C08",37,AH8_97,DH8_97,"3D1ijk"},{"e08_s32","C08",37,AH8_98,DH8_98,"3D1ijk"},{"e08_s33","C08",37,AH8_99,DH8_99,"3D1ijk"},{"e08_s34","C08",37,AH8_100,DH8_100,"3D1ijk"},{"e08_s35","C08",37,AH8_101,DH8_101,"3D1ijk"},{"e08_s36","C08",37,AH8_102,DH8_102,"3D1ijk"},{"e08_s37","C08",37,AH8_103,DH8_103,"3D1ijk"},{"e08_s38","C08",37,AH8_104,DH8_104,"3D1ijk"},{"e08_s39","C08",37,AH8_105,DH8_105,"3D1ijk"},{"e08_s40","C08",37,AH8_106,DH8_106,"3D1ijk"},{"e08_s41","C08",37,AH8_107,DH8_107,"3D1ijk"},{"e08_s42","C08",37,AH8_108,DH8_108,"3D1ijk"},{"e08_s43","C08",37,AH8_109,DH8_109,"2D1ik"},{"e08_s44","C08",37,AH8_110,DH8_110,"2D1ik"},{"e08_s45","C08",37,AH8_111,DH8_111,"2D1ik"},{"e08_s46","C08",37,AH8_112,DH8_112,"2D1ik"},{"e08_s47","C08",37,AH8_113,DH8_113,"2D1ik"},{"e08_s48","C08",37,AH8_114,DH8_114,"2D1ik"},{"e08_s49","C08",37,AH8_115,DH8_115,"2D1ik"},{"e08_s50","C08",37,AH8_116,DH8_116,"2D1jk"},{"e08_s51","C08",37,AH8_117,DH8_117,"2D1jk"},{"e08_s52","C08",37,AH8_118,DH8_118,"2D1jk"},{"e08_s53","C08",37,AH8_119,DH8_119,"2D1jk"},{"e08_s54","C08",37,AH8_120,DH8_120,"2D1jk"},{"e08_s55","C08",37,AH8_121,DH8_121,"2D1jk"},{"e08_s56","C08",37,AH8_122,DH8_122,"2D1jk"},{"e08_s57","C08",37,AH8_123,DH8_123,"1D1i"},{"e08_s58","C08",37,AH8_124,DH8_124,"1D1i"},{"e08_s59","C08",37,AH8_125,DH8_125,"1D1k"},{"e08_s60","C08",37,AH8_126,DH8_126,"1D1k"},{"e08_f00","C08",37,AH8_127,DH8_127,"1F1i"},{"e08_f01","C08",37,AH8_128,DH8_128,"1F1j"},{"e08_f02","C08",37,AH8_129,DH8_129,"2F1ij"},{"e08_f03","C08",37,AH8_130,DH8_130,"2F1ij"},{"e08_f04","C08",37,AH8_131,DH8_131,"2F1jk"},{"e08_f05","C08",37,AH8_132,DH8_132,"2F1ik"},{"e08_f06","C08",37,AH8_133,DH8_133,"3F1ijk"},{"e08_f07","C08",37,AH8_134,DH8_134,"3F1ijk"},{"e08_f08","C08",37,AH8_135,DH8_135,"3F1ijk"},{"e08_f09","C08",37,AH8_136,DH8_136,"3F1ijk"},{"e08_f10","C08",37,AH8_137,DH8_137,"3F1ijk"},{"e08_f11","C08",37,AH8_138,DH8_138,"3F1ijk"}

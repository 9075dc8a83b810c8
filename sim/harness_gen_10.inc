static void DH10_0(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13]+1;break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_0[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',2,1},{"ti",'D',2,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH10_1(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17]+1;break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13]+1;break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17]+1;break;}}
static const ArgD AH10_1[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',2,1},{"ti",'D',2,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH10_2(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17]+1;break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13]+1;break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_2[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',2,1},{"ti",'D',2,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH10_3(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13]+1;break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_3[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',2,1},{"ti",'D',2,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH10_4(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_4[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',2,1},{"ti",'D',2,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH10_5(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14]+1;break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_5[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',2,1},{"ti",'D',2,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH10_6(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17]+1;break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_6[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',2,1},{"ti",'D',2,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH10_7(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14]+1;break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23]+1;break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_7[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',2,1},{"ti",'D',2,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH10_8(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_8[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',2,1},{"ti",'D',2,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH10_9(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23]+1;break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17]+1;break;}}
static const ArgD AH10_9[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',2,1},{"ti",'D',2,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH10_10(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17]+1;break;}}
static const ArgD AH10_10[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',2,1},{"ti",'D',2,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH10_11(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_11[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',2,1},{"ti",'D',2,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH10_12(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_12[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',2,1},{"ti",'D',2,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH10_13(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23]+1;break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_13[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_14(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13]+1;o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25]+1;o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_14[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_15(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[0]-v[12]-v[16];o[1][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25]+1;o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_15[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_16(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[0]-v[12]-v[16];o[1][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17]+1;break;}}
static const ArgD AH10_16[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_17(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[0]-v[12]-v[16];o[1][1]=v[1]+v[12]+v[17]+1;break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14]+1;o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_17[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_18(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_18[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_19(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[0]-v[12]-v[16];o[1][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19]+1;break;}}
static const ArgD AH10_19[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_20(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[0]-v[12]-v[16];o[1][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13]+1;break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19]+1;break;}}
static const ArgD AH10_20[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_21(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17]+1;o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_21[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_22(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19]+1;o[1][0]=v[0]-v[12]-v[16];o[1][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_22[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_23(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19]+1;break;}}
static const ArgD AH10_23[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_24(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[0]-v[12]-v[16];o[1][1]=v[1]+v[12]+v[17]+1;break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14]+1;o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_24[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_25(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[0]-v[12]-v[16];o[1][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14]+1;break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_25[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_26(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];o[2][0]=v[2]-v[12]-v[18];o[2][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[4]-v[13];o[0][1]=v[5]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];o[2][0]=v[0]-v[13];o[2][1]=v[1]+v[13];break;case 40:o[0][0]=v[4]-v[14];o[0][1]=v[5]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];o[2][0]=v[2]-v[14];o[2][1]=v[3]+v[14]+1;break;case 41:o[0][0]=v[4]-v[15]-v[26];o[0][1]=v[5]+v[15]+v[27];o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23];o[2][0]=v[2]-v[15]-v[24];o[2][1]=v[3]+v[15]+v[25]+1;break;case 42:o[0][0]=v[4]-v[15]-v[20];o[0][1]=v[5]+v[15]+v[21];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];o[2][0]=v[2]-v[15]-v[18];o[2][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_26[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_27(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];o[2][0]=v[2]-v[12]-v[18];o[2][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[4]-v[13];o[0][1]=v[5]+v[13]+1;o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];o[2][0]=v[2]-v[13];o[2][1]=v[3]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[4]-v[14];o[1][1]=v[5]+v[14];o[2][0]=v[2]-v[14];o[2][1]=v[3]+v[14]+1;break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];o[2][0]=v[4]-v[15]-v[26];o[2][1]=v[5]+v[15]+v[27];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];o[2][0]=v[4]-v[15]-v[20];o[2][1]=v[5]+v[15]+v[21];break;}}
static const ArgD AH10_27[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_28(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];o[2][0]=v[2]-v[12]-v[18];o[2][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[4]-v[13];o[1][1]=v[5]+v[13];o[2][0]=v[2]-v[13];o[2][1]=v[3]+v[13];break;case 40:o[0][0]=v[4]-v[14];o[0][1]=v[5]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];o[2][0]=v[2]-v[14];o[2][1]=v[3]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[4]-v[15]-v[26];o[1][1]=v[5]+v[15]+v[27];o[2][0]=v[0]-v[15]-v[22];o[2][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[4]-v[15]-v[20];o[1][1]=v[5]+v[15]+v[21];o[2][0]=v[2]-v[15]-v[18];o[2][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_28[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_29(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];o[3][0]=v[2]-v[11]-v[24];o[3][1]=v[3]+v[11]+v[25];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];o[2][0]=v[2]-v[12]-v[18];o[2][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[4]-v[13];o[1][1]=v[5]+v[13];o[2][0]=v[0]-v[13];o[2][1]=v[1]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[4]-v[14];o[1][1]=v[5]+v[14];o[2][0]=v[0]-v[14];o[2][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[4]-v[15]-v[26];o[1][1]=v[5]+v[15]+v[27];o[2][0]=v[2]-v[15]-v[24];o[2][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[4]-v[15]-v[20];o[0][1]=v[5]+v[15]+v[21];o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19];o[2][0]=v[0]-v[15]-v[16];o[2][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_29[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_30(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];o[3][0]=v[2]-v[11]-v[24];o[3][1]=v[3]+v[11]+v[25];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];o[2][0]=v[0]-v[12]-v[16];o[2][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];o[2][0]=v[4]-v[13];o[2][1]=v[5]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];o[2][0]=v[4]-v[14];o[2][1]=v[5]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[4]-v[15]-v[26];o[1][1]=v[5]+v[15]+v[27];o[2][0]=v[0]-v[15]-v[22];o[2][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[4]-v[15]-v[20];o[1][1]=v[5]+v[15]+v[21];o[2][0]=v[2]-v[15]-v[18];o[2][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_30[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_31(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19]+1;o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];o[2][0]=v[0]-v[12]-v[16];o[2][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[4]-v[13];o[1][1]=v[5]+v[13];o[2][0]=v[0]-v[13];o[2][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[4]-v[14];o[1][1]=v[5]+v[14];o[2][0]=v[2]-v[14];o[2][1]=v[3]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[4]-v[15]-v[26];o[1][1]=v[5]+v[15]+v[27];o[2][0]=v[2]-v[15]-v[24];o[2][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[4]-v[15]-v[20];o[1][1]=v[5]+v[15]+v[21];o[2][0]=v[0]-v[15]-v[16];o[2][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_31[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_32(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];o[2][0]=v[0]-v[12]-v[16];o[2][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13]+1;o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];o[2][0]=v[4]-v[13];o[2][1]=v[5]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14]+1;o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];o[2][0]=v[4]-v[14];o[2][1]=v[5]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23];o[2][0]=v[4]-v[15]-v[26];o[2][1]=v[5]+v[15]+v[27];break;case 42:o[0][0]=v[4]-v[15]-v[20];o[0][1]=v[5]+v[15]+v[21]+1;o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19];o[2][0]=v[0]-v[15]-v[16];o[2][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_32[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_33(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];o[3][0]=v[2]-v[11]-v[24];o[3][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];o[2][0]=v[0]-v[12]-v[16];o[2][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];o[2][0]=v[4]-v[13];o[2][1]=v[5]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];o[2][0]=v[4]-v[14];o[2][1]=v[5]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];o[2][0]=v[4]-v[15]-v[26];o[2][1]=v[5]+v[15]+v[27];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];o[2][0]=v[4]-v[15]-v[20];o[2][1]=v[5]+v[15]+v[21];break;}}
static const ArgD AH10_33[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_34(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];o[2][0]=v[0]-v[12]-v[16];o[2][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[4]-v[13];o[0][1]=v[5]+v[13];o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];o[2][0]=v[2]-v[13];o[2][1]=v[3]+v[13];break;case 40:o[0][0]=v[4]-v[14];o[0][1]=v[5]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];o[2][0]=v[0]-v[14];o[2][1]=v[1]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23]+1;o[2][0]=v[4]-v[15]-v[26];o[2][1]=v[5]+v[15]+v[27];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[4]-v[15]-v[20];o[1][1]=v[5]+v[15]+v[21];o[2][0]=v[2]-v[15]-v[18];o[2][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_34[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_35(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];o[3][0]=v[2]-v[11]-v[24];o[3][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];o[3][0]=v[2]-v[11]-v[24];o[3][1]=v[3]+v[11]+v[25];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17]+1;o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];o[2][0]=v[2]-v[12]-v[18];o[2][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];o[2][0]=v[4]-v[13];o[2][1]=v[5]+v[13];break;case 40:o[0][0]=v[4]-v[14];o[0][1]=v[5]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];o[2][0]=v[2]-v[14];o[2][1]=v[3]+v[14];break;case 41:o[0][0]=v[4]-v[15]-v[26];o[0][1]=v[5]+v[15]+v[27]+1;o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23];o[2][0]=v[2]-v[15]-v[24];o[2][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19];o[2][0]=v[4]-v[15]-v[20];o[2][1]=v[5]+v[15]+v[21];break;}}
static const ArgD AH10_35[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_36(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[0]-v[12]-v[16];o[1][1]=v[1]+v[12]+v[17];o[2][0]=v[4]-v[12]-v[20];o[2][1]=v[5]+v[12]+v[21];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13]+1;o[1][0]=v[4]-v[13];o[1][1]=v[5]+v[13];o[2][0]=v[0]-v[13];o[2][1]=v[1]+v[13];break;case 40:o[0][0]=v[4]-v[14];o[0][1]=v[5]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];o[2][0]=v[2]-v[14];o[2][1]=v[3]+v[14]+1;break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[4]-v[15]-v[26];o[1][1]=v[5]+v[15]+v[27];o[2][0]=v[2]-v[15]-v[24];o[2][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[4]-v[15]-v[20];o[1][1]=v[5]+v[15]+v[21];o[2][0]=v[2]-v[15]-v[18];o[2][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_36[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_37(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];o[2][0]=v[4]-v[12]-v[20];o[2][1]=v[5]+v[12]+v[21];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];o[2][0]=v[4]-v[13];o[2][1]=v[5]+v[13];break;case 40:o[0][0]=v[4]-v[14];o[0][1]=v[5]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];o[2][0]=v[2]-v[14];o[2][1]=v[3]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[4]-v[15]-v[26];o[1][1]=v[5]+v[15]+v[27];o[2][0]=v[0]-v[15]-v[22];o[2][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[4]-v[15]-v[20];o[0][1]=v[5]+v[15]+v[21];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];o[2][0]=v[2]-v[15]-v[18];o[2][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_37[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_38(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[4]-v[12]-v[20];o[0][1]=v[5]+v[12]+v[21];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];o[2][0]=v[0]-v[12]-v[16];o[2][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[4]-v[13];o[0][1]=v[5]+v[13];o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];o[2][0]=v[2]-v[13];o[2][1]=v[3]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[4]-v[14];o[1][1]=v[5]+v[14];o[2][0]=v[0]-v[14];o[2][1]=v[1]+v[14];break;case 41:o[0][0]=v[4]-v[15]-v[26];o[0][1]=v[5]+v[15]+v[27];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];o[2][0]=v[0]-v[15]-v[22];o[2][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[4]-v[15]-v[20];o[0][1]=v[5]+v[15]+v[21];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];o[2][0]=v[2]-v[15]-v[18];o[2][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_38[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_39(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19]+1;o[1][0]=v[0]-v[12]-v[16];o[1][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_39[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_40(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19]+1;o[1][0]=v[0]-v[12]-v[16];o[1][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14]+1;break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_40[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_41(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_41[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_42(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[0]-v[12]-v[16];o[1][1]=v[1]+v[12]+v[17];o[2][0]=v[4]-v[12]-v[20];o[2][1]=v[5]+v[12]+v[21];break;case 39:o[0][0]=v[4]-v[13];o[0][1]=v[5]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];o[2][0]=v[0]-v[13];o[2][1]=v[1]+v[13];break;case 40:o[0][0]=v[4]-v[14];o[0][1]=v[5]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14]+1;o[2][0]=v[2]-v[14];o[2][1]=v[3]+v[14];break;case 41:o[0][0]=v[4]-v[15]-v[26];o[0][1]=v[5]+v[15]+v[27];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];o[2][0]=v[0]-v[15]-v[22];o[2][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[4]-v[15]-v[20];o[0][1]=v[5]+v[15]+v[21];o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19];o[2][0]=v[0]-v[15]-v[16];o[2][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_42[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_43(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];o[2][0]=v[0]-v[12]-v[16];o[2][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[4]-v[13];o[1][1]=v[5]+v[13];o[2][0]=v[0]-v[13];o[2][1]=v[1]+v[13];break;case 40:o[0][0]=v[4]-v[14];o[0][1]=v[5]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];o[2][0]=v[2]-v[14];o[2][1]=v[3]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];o[2][0]=v[4]-v[15]-v[26];o[2][1]=v[5]+v[15]+v[27];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];o[2][0]=v[4]-v[15]-v[20];o[2][1]=v[5]+v[15]+v[21];break;}}
static const ArgD AH10_43[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_44(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 38:o[0][0]=v[4]-v[12]-v[20];o[0][1]=v[5]+v[12]+v[21];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];o[2][0]=v[0]-v[12]-v[16];o[2][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];o[2][0]=v[4]-v[13];o[2][1]=v[5]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];o[2][0]=v[4]-v[14];o[2][1]=v[5]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23];o[2][0]=v[4]-v[15]-v[26];o[2][1]=v[5]+v[15]+v[27];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];o[2][0]=v[4]-v[15]-v[20];o[2][1]=v[5]+v[15]+v[21];break;}}
static const ArgD AH10_44[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_45(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];o[3][0]=v[2]-v[11]-v[24];o[3][1]=v[3]+v[11]+v[25];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];o[2][0]=v[4]-v[12]-v[20];o[2][1]=v[5]+v[12]+v[21];break;case 39:o[0][0]=v[4]-v[13];o[0][1]=v[5]+v[13];o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];o[2][0]=v[2]-v[13];o[2][1]=v[3]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];o[2][0]=v[4]-v[14];o[2][1]=v[5]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23];o[2][0]=v[4]-v[15]-v[26];o[2][1]=v[5]+v[15]+v[27]+1;break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[4]-v[15]-v[20];o[1][1]=v[5]+v[15]+v[21];o[2][0]=v[2]-v[15]-v[18];o[2][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_45[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_46(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];o[3][0]=v[2]-v[11]-v[24];o[3][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];o[3][0]=v[2]-v[11]-v[24];o[3][1]=v[3]+v[11]+v[25];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];o[2][0]=v[2]-v[12]-v[18];o[2][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];o[2][0]=v[4]-v[13];o[2][1]=v[5]+v[13];break;case 40:o[0][0]=v[4]-v[14];o[0][1]=v[5]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];o[2][0]=v[2]-v[14];o[2][1]=v[3]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[4]-v[15]-v[26];o[1][1]=v[5]+v[15]+v[27];o[2][0]=v[0]-v[15]-v[22];o[2][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];o[2][0]=v[4]-v[15]-v[20];o[2][1]=v[5]+v[15]+v[21];break;}}
static const ArgD AH10_46[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_47(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[4]-v[12]-v[20];o[0][1]=v[5]+v[12]+v[21];o[1][0]=v[0]-v[12]-v[16];o[1][1]=v[1]+v[12]+v[17];o[2][0]=v[2]-v[12]-v[18];o[2][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[4]-v[13];o[1][1]=v[5]+v[13];o[2][0]=v[2]-v[13];o[2][1]=v[3]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[4]-v[14];o[1][1]=v[5]+v[14];o[2][0]=v[2]-v[14];o[2][1]=v[3]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[4]-v[15]-v[26];o[1][1]=v[5]+v[15]+v[27];o[2][0]=v[2]-v[15]-v[24];o[2][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[4]-v[15]-v[20];o[0][1]=v[5]+v[15]+v[21]+1;o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];o[2][0]=v[2]-v[15]-v[18];o[2][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_47[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_48(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];o[2][0]=v[4]-v[12]-v[20];o[2][1]=v[5]+v[12]+v[21]+1;break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[4]-v[13];o[1][1]=v[5]+v[13]+1;o[2][0]=v[0]-v[13];o[2][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[4]-v[14];o[1][1]=v[5]+v[14];o[2][0]=v[2]-v[14];o[2][1]=v[3]+v[14];break;case 41:o[0][0]=v[4]-v[15]-v[26];o[0][1]=v[5]+v[15]+v[27];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25]+1;o[2][0]=v[0]-v[15]-v[22];o[2][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];o[2][0]=v[4]-v[15]-v[20];o[2][1]=v[5]+v[15]+v[21];break;}}
static const ArgD AH10_48[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_49(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];o[2][0]=v[0]-v[12]-v[16];o[2][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[4]-v[13];o[1][1]=v[5]+v[13];o[2][0]=v[0]-v[13];o[2][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[4]-v[14];o[1][1]=v[5]+v[14];o[2][0]=v[2]-v[14];o[2][1]=v[3]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[4]-v[15]-v[26];o[1][1]=v[5]+v[15]+v[27];o[2][0]=v[2]-v[15]-v[24];o[2][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[4]-v[15]-v[20];o[1][1]=v[5]+v[15]+v[21]+1;o[2][0]=v[2]-v[15]-v[18];o[2][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_49[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_50(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[0]-v[12]-v[16];o[1][1]=v[1]+v[12]+v[17];o[2][0]=v[4]-v[12]-v[20];o[2][1]=v[5]+v[12]+v[21];break;case 39:o[0][0]=v[4]-v[13];o[0][1]=v[5]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];o[2][0]=v[0]-v[13];o[2][1]=v[1]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[4]-v[14];o[1][1]=v[5]+v[14];o[2][0]=v[0]-v[14];o[2][1]=v[1]+v[14];break;case 41:o[0][0]=v[4]-v[15]-v[26];o[0][1]=v[5]+v[15]+v[27];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];o[2][0]=v[0]-v[15]-v[22];o[2][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[4]-v[15]-v[20];o[0][1]=v[5]+v[15]+v[21];o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19];o[2][0]=v[0]-v[15]-v[16];o[2][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_50[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_51(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[0]-v[11]-v[22];o[3][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];o[2][0]=v[2]-v[12]-v[18];o[2][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13]+1;o[2][0]=v[4]-v[13];o[2][1]=v[5]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];o[2][0]=v[4]-v[14];o[2][1]=v[5]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[4]-v[15]-v[26];o[1][1]=v[5]+v[15]+v[27];o[2][0]=v[0]-v[15]-v[22];o[2][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[4]-v[15]-v[20];o[1][1]=v[5]+v[15]+v[21];o[2][0]=v[0]-v[15]-v[16];o[2][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_51[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_52(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 38:o[0][0]=v[4]-v[12]-v[20];o[0][1]=v[5]+v[12]+v[21];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];o[2][0]=v[0]-v[12]-v[16];o[2][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[4]-v[13];o[0][1]=v[5]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];o[2][0]=v[0]-v[13];o[2][1]=v[1]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14];o[2][0]=v[4]-v[14];o[2][1]=v[5]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];o[2][0]=v[4]-v[15]-v[26];o[2][1]=v[5]+v[15]+v[27];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[4]-v[15]-v[20];o[1][1]=v[5]+v[15]+v[21];o[2][0]=v[2]-v[15]-v[18];o[2][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_52[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_53(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];o[3][0]=v[2]-v[11]-v[24];o[3][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];o[3][0]=v[2]-v[11]-v[24];o[3][1]=v[3]+v[11]+v[25];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];o[2][0]=v[4]-v[12]-v[20];o[2][1]=v[5]+v[12]+v[21];break;case 39:o[0][0]=v[4]-v[13];o[0][1]=v[5]+v[13];o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];o[2][0]=v[2]-v[13];o[2][1]=v[3]+v[13];break;case 40:o[0][0]=v[4]-v[14];o[0][1]=v[5]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];o[2][0]=v[0]-v[14];o[2][1]=v[1]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[4]-v[15]-v[26];o[1][1]=v[5]+v[15]+v[27];o[2][0]=v[0]-v[15]-v[22];o[2][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17]+1;o[1][0]=v[4]-v[15]-v[20];o[1][1]=v[5]+v[15]+v[21];o[2][0]=v[2]-v[15]-v[18];o[2][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_53[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_54(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[4]-v[13];o[1][1]=v[5]+v[13];break;case 40:o[0][0]=v[4]-v[14];o[0][1]=v[5]+v[14];o[1][0]=v[0]-v[14];o[1][1]=v[1]+v[14]+1;break;case 41:o[0][0]=v[4]-v[15]-v[26];o[0][1]=v[5]+v[15]+v[27];o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[4]-v[15]-v[20];o[0][1]=v[5]+v[15]+v[21];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_54[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_55(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];break;case 39:o[0][0]=v[4]-v[13];o[0][1]=v[5]+v[13];o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[4]-v[14];o[1][1]=v[5]+v[14];break;case 41:o[0][0]=v[4]-v[15]-v[26];o[0][1]=v[5]+v[15]+v[27];o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[4]-v[15]-v[20];o[1][1]=v[5]+v[15]+v[21];break;}}
static const ArgD AH10_55[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_56(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[0]-v[11]-v[22];o[2][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[4]-v[12]-v[20];o[0][1]=v[5]+v[12]+v[21];o[1][0]=v[0]-v[12]-v[16];o[1][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[4]-v[13];o[0][1]=v[5]+v[13];o[1][0]=v[0]-v[13];o[1][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[4]-v[14];o[1][1]=v[5]+v[14];break;case 41:o[0][0]=v[4]-v[15]-v[26];o[0][1]=v[5]+v[15]+v[27];o[1][0]=v[0]-v[15]-v[22];o[1][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[4]-v[15]-v[20];o[0][1]=v[5]+v[15]+v[21];o[1][0]=v[0]-v[15]-v[16];o[1][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_56[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_57(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];break;case 38:o[0][0]=v[2]-v[12]-v[18];o[0][1]=v[3]+v[12]+v[19];o[1][0]=v[4]-v[12]-v[20];o[1][1]=v[5]+v[12]+v[21];break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[4]-v[13];o[1][1]=v[5]+v[13];break;case 40:o[0][0]=v[4]-v[14];o[0][1]=v[5]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];break;case 41:o[0][0]=v[4]-v[15]-v[26];o[0][1]=v[5]+v[15]+v[27];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[4]-v[15]-v[20];o[0][1]=v[5]+v[15]+v[21]+1;o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_57[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_58(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];break;case 38:o[0][0]=v[4]-v[12]-v[20];o[0][1]=v[5]+v[12]+v[21];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[4]-v[13];o[0][1]=v[5]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[4]-v[14];o[1][1]=v[5]+v[14];break;case 41:o[0][0]=v[2]-v[15]-v[24];o[0][1]=v[3]+v[15]+v[25];o[1][0]=v[4]-v[15]-v[26];o[1][1]=v[5]+v[15]+v[27];break;case 42:o[0][0]=v[2]-v[15]-v[18];o[0][1]=v[3]+v[15]+v[19];o[1][0]=v[4]-v[15]-v[20];o[1][1]=v[5]+v[15]+v[21];break;}}
static const ArgD AH10_58[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_59(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[4]-v[11]-v[26];o[1][1]=v[5]+v[11]+v[27];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[2]-v[11]-v[24];o[1][1]=v[3]+v[11]+v[25];o[2][0]=v[4]-v[11]-v[26];o[2][1]=v[5]+v[11]+v[27];break;case 38:o[0][0]=v[4]-v[12]-v[20];o[0][1]=v[5]+v[12]+v[21];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19]+1;break;case 39:o[0][0]=v[2]-v[13];o[0][1]=v[3]+v[13];o[1][0]=v[4]-v[13];o[1][1]=v[5]+v[13];break;case 40:o[0][0]=v[2]-v[14];o[0][1]=v[3]+v[14];o[1][0]=v[4]-v[14];o[1][1]=v[5]+v[14];break;case 41:o[0][0]=v[4]-v[15]-v[26];o[0][1]=v[5]+v[15]+v[27];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[4]-v[15]-v[20];o[0][1]=v[5]+v[15]+v[21];o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_59[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_60(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_60[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',2,1},{"ti",'D',2,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
static void DH10_61(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=2;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19];break;}}
static const ArgD AH10_61[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',3,1},{"ti",'D',3,0},{"u",'D',2,0},{"v",'D',2,0},{"b0",'D',2,0},{"r",'D',2,1},{"q",'D',2,1}};
static void DH10_62(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=3;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];o[2][0]=v[2]-v[11]-v[24];o[2][1]=v[3]+v[11]+v[25];o[3][0]=v[4]-v[11]-v[26];o[3][1]=v[5]+v[11]+v[27];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];o[1][0]=v[2]-v[12]-v[18];o[1][1]=v[3]+v[12]+v[19];o[2][0]=v[4]-v[12]-v[20];o[2][1]=v[5]+v[12]+v[21];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];o[1][0]=v[2]-v[13];o[1][1]=v[3]+v[13];o[2][0]=v[4]-v[13];o[2][1]=v[5]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];o[1][0]=v[2]-v[14];o[1][1]=v[3]+v[14];o[2][0]=v[4]-v[14];o[2][1]=v[5]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];o[1][0]=v[2]-v[15]-v[24];o[1][1]=v[3]+v[15]+v[25];o[2][0]=v[4]-v[15]-v[26];o[2][1]=v[5]+v[15]+v[27];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];o[1][0]=v[2]-v[15]-v[18];o[1][1]=v[3]+v[15]+v[19];o[2][0]=v[4]-v[15]-v[20];o[2][1]=v[5]+v[15]+v[21];break;}}
static const ArgD AH10_62[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',4,1},{"ti",'D',4,0},{"u",'D',3,0},{"v",'D',3,0},{"b0",'D',3,0},{"r",'D',3,1},{"q",'D',3,1}};
static void DH10_63(const long*v,int a,long(*o)[2]){(void)v;switch(a){case 35:o[0][0]=1;o[0][1]=1;o[1][0]=1;o[1][1]=v[6];break;case 36:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 37:o[0][0]=v[7];o[0][1]=v[7]+v[6]-1;o[1][0]=v[0]-v[11]-v[22];o[1][1]=v[1]+v[11]+v[23];break;case 38:o[0][0]=v[0]-v[12]-v[16];o[0][1]=v[1]+v[12]+v[17];break;case 39:o[0][0]=v[0]-v[13];o[0][1]=v[1]+v[13];break;case 40:o[0][0]=v[0]-v[14];o[0][1]=v[1]+v[14];break;case 41:o[0][0]=v[0]-v[15]-v[22];o[0][1]=v[1]+v[15]+v[23];break;case 42:o[0][0]=v[0]-v[15]-v[16];o[0][1]=v[1]+v[15]+v[17];break;}}
static const ArgD AH10_63[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"w",'i',0,0},{"w0",'i',0,0},{"s0",'i',0,0},{"s1",'i',0,0},{"s2",'i',0,0},{"gs",'i',0,0},{"gu",'i',0,0},{"gv",'i',0,0},{"gc",'i',0,0},{"gr",'i',0,0},{"xl0",'i',0,0},{"xh0",'i',0,0},{"xl1",'i',0,0},{"xh1",'i',0,0},{"xl2",'i',0,0},{"xh2",'i',0,0},{"yl0",'i',0,0},{"yh0",'i',0,0},{"yl1",'i',0,0},{"yh1",'i',0,0},{"yl2",'i',0,0},{"yh2",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"a",'d',0,0},{"b",'d',0,0},{"h0",'d',0,0},{"h1",'d',0,0},{"h2",'d',0,0},{"offs",'I',2,0},{"st",'D',2,1},{"ti",'D',2,0},{"u",'D',1,0},{"v",'D',1,0},{"b0",'D',1,0},{"r",'D',1,1},{"q",'D',1,1}};
#define HARNESS_10 {"e10_00","C10",43,AH10_0,DH10_0,"1S0i4"},{"e10_01","C10",43,AH10_1,DH10_1,"1D0i4"},{"e10_02","C10",43,AH10_2,DH10_2,"1D1i3"},{"e10_03","C10",43,AH10_3,DH10_3,"1S0i4"},{"e10_04","C10",43,AH10_4,DH10_4,"1D0i4"},{"e10_05","C10",43,AH10_5,DH10_5,"1D0i4"},{"e10_06","C10",43,AH10_6,DH10_6,"1D1i4"},{"e10_07","C10",43,AH10_7,DH10_7,"1D1i5"},{"e10_08","C10",43,AH10_8,DH10_8,"1D0i2"},{"e10_09","C10",43,AH10_9,DH10_9,"1S0i3"},{"e10_10","C10",43,AH10_10,DH10_10,"1D1i1"},{"e10_11","C10",43,AH10_11,DH10_11,"1D1i1"},{"e10_12","C10",43,AH10_12,DH10_12,"1S0i4"},{"e10_13","C10",43,AH10_13,DH10_13,"2D1ij3"},{"e10_14","C10",43,AH10_14,DH10_14,"2D1ij2"},{"e10_15","C10",43,AH10_15,DH10_15,"2S0ij4"},{"e10_16","C10",43,AH10_16,DH10_16,"2D1ij3"},{"e10_17","C10",43,AH10_17,DH10_17,"2D0ij4"},{"e10_18","C10",43,AH10_18,DH10_18,"2S0ij4"},{"e10_19","C10",43,AH10_19,DH10_19,"2D1ij5"},{"e10_20","C10",43,AH10_20,DH10_20,"2D1ij5"},{"e10_21","C10",43,AH10_21,DH10_21,"2S0ij3"},{"e10_22","C10",43,AH10_22,DH10_22,"2D0ij3"},{"e10_23","C10",43,AH10_23,DH10_23,"2D1ij1"},{"e10_24","C10",43,AH10_24,DH10_24,"2D1ij1"},{"e10_25","C10",43,AH10_25,DH10_25,"2D0ij3"},{"e10_26","C10",43,AH10_26,DH10_26,"3D2ijk4"},{"e10_27","C10",43,AH10_27,DH10_27,"3S0ijk4"},{"e10_28","C10",43,AH10_28,DH10_28,"3D0ijk3"},{"e10_29","C10",43,AH10_29,DH10_29,"3D0ijk3"},{"e10_30","C10",43,AH10_30,DH10_30,"3S0ijk4"},{"e10_31","C10",43,AH10_31,DH10_31,"3D2ijk4"},{"e10_32","C10",43,AH10_32,DH10_32,"3D2ijk5"},{"e10_33","C10",43,AH10_33,DH10_33,"3D1ijk5"},{"e10_34","C10",43,AH10_34,DH10_34,"3D1ijk4"},{"e10_35","C10",43,AH10_35,DH10_35,"3D0ijk1"},{"e10_36","C10",43,AH10_36,DH10_36,"3D1ijk1"},{"e10_37","C10",43,AH10_37,DH10_37,"3D1ijk1"},{"e10_38","C10",43,AH10_38,DH10_38,"3D0ijk4"},{"e10_s00","C10",43,AH10_39,DH10_39,"2D1ij6"},{"e10_s01","C10",43,AH10_40,DH10_40,"2D1ij6"},{"e10_s02","C10",43,AH10_41,DH10_41,"2D1ij4"},{"e10_s03","C10",43,AH10_42,DH10_42,"3D1ijk6"},{"e10_s04","C10",43,AH10_43,DH10_43,"3D1ijk6"},{"e10_s05","C10",43,AH10_44,DH10_44,"3D1ijk6"},{"e10_s06","C10",43,AH10_45,DH10_45,"3D1ijk6"},{"e10_s07","C10",43,AH10_46,DH10_46,"3D1ijk6"},{"e10_s08","C10",43,AH10_47,DH10_47,"3D1ijk6"},{"e10_s09","C10",43,AH10_48,DH10_48,"3D1ijk6"},{"e10_s10","C10",43,AH10_49,DH10_49,"3D1ijk6"},{"e10_s11","C10",43,AH10_50,DH10_50,"3D1ijk6"},{"e10_s12","C10",43,AH10_51,DH10_51,"3D1ijk6"},{"e10_s13","C10",43,AH10_52,DH10_52,"3D1ijk6"},{"e10_s14","C10",43,AH10_53,DH10_53,"3D1ijk6"},{"e10_s15","C10",43,AH10_54,DH10_54,"2D1ik6"},{"e10_s16","C10",43,AH10_55,DH10_55,"2D1ik6"},{"e10_s17","C10",43,AH10_56,DH10_56,"2D1ik4"},{"e10_s18","C10",43,AH10_57,DH10_57,"2D1jk6"},{"e10_s19","C10",43,AH10_58,DH10_58,"2D1jk6"},{"e10_s20","C10",43,AH10_59,DH10_59,"2D1jk4"},{"e10_s21","C10",43,AH10_60,DH10_60,"1D1i4"},{"e10_h0","C10",43,AH10_61,DH10_61,"2D0ij3"},{"e10_h1","C10",43,AH10_62,DH10_62,"3S0ijk3"},{"e10_h2","C10",43,AH10_63,DH10_63,"1D0i3"}

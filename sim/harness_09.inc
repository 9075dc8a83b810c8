// generated by tools/gen_h9.py
static const ArgD AH9[]={{"n0",'i',0,0},{"n1",'i',0,0},{"n2",'i',0,0},{"n3",'i',0,0},{"l0",'i',0,0},{"l1",'i',0,0},{"l2",'i',0,0},{"l3",'i',0,0},{"e0",'i',0,0},{"e1",'i',0,0},{"e2",'i',0,0},{"e3",'i',0,0},{"t0",'i',0,0},{"t1",'i',0,0},{"t2",'i',0,0},{"t3",'i',0,0},{"par",'i',0,0},{"ck",'i',0,0},{"m",'i',0,0},{"fi",'i',0,0},{"x",'i',0,0},{"src",'D',1,0},{"offs",'I',1,0},{"out",'D',1,1},{"laws_broken",'D',1,1}};
static void DH9_0(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_1(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_2(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_3(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)*((v[11]-v[7])/v[15]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_4(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=((v[8]-v[4])/v[12]+1)-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=v[0]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_5(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=v[0]*v[1]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_6(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=v[0]*v[1]*v[2]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_7(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)*((v[11]-v[7])/v[15]+1)-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_8(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_9(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_10(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_11(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_12(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_13(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_14(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_15(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_16(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)*((v[11]-v[7])/v[15]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_17(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)*((v[11]-v[7])/v[15]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_18(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)*((v[11]-v[7])/v[15]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_19(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)*((v[11]-v[7])/v[15]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_20(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)*((v[11]-v[7])/v[15]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_21(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)*((v[11]-v[7])/v[15]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_22(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=v[0]*v[1]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_23(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=v[0]*v[1]*v[2]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_24(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=v[0]*v[1]*v[2]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_25(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)*((v[11]-v[7])/v[15]+1)-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_26(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*(((v[8]-v[4])/v[12]+1)-1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_27(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*(((v[8]-v[4])/v[12]+1)-1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_28(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*(((v[8]-v[4])/v[12]+1)-1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_29(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*(((v[8]-v[4])/v[12]+1)-1)*((v[9]-v[5])/v[13]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_30(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*(((v[8]-v[4])/v[12]+1)-1)*((v[9]-v[5])/v[13]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_31(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*(((v[8]-v[4])/v[12]+1)-1)*((v[9]-v[5])/v[13]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_32(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*((v[8]-v[4])/v[12]+1)*(((v[9]-v[5])/v[13]+1)-1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_33(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*((v[8]-v[4])/v[12]+1)*(((v[9]-v[5])/v[13]+1)-1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_34(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*((v[8]-v[4])/v[12]+1)*(((v[9]-v[5])/v[13]+1)-1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_35(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*(((v[8]-v[4])/v[12]+1)-1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_36(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*(((v[8]-v[4])/v[12]+1)-1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_37(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*(((v[8]-v[4])/v[12]+1)-1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_38(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*((v[8]-v[4])/v[12]+1)*(((v[9]-v[5])/v[13]+1)-1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_39(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*((v[8]-v[4])/v[12]+1)*(((v[9]-v[5])/v[13]+1)-1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_40(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*((v[8]-v[4])/v[12]+1)*(((v[9]-v[5])/v[13]+1)-1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_41(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*(((v[10]-v[6])/v[14]+1)-1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_42(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*(((v[10]-v[6])/v[14]+1)-1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_43(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*(((v[10]-v[6])/v[14]+1)-1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_44(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*(((v[8]-v[4])/v[12]+1)-1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)*((v[11]-v[7])/v[15]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_45(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*(((v[8]-v[4])/v[12]+1)-1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)*((v[11]-v[7])/v[15]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_46(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*((v[8]-v[4])/v[12]+1)*(((v[9]-v[5])/v[13]+1)-1)*((v[10]-v[6])/v[14]+1)*((v[11]-v[7])/v[15]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_47(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*((v[8]-v[4])/v[12]+1)*(((v[9]-v[5])/v[13]+1)-1)*((v[10]-v[6])/v[14]+1)*((v[11]-v[7])/v[15]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_48(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*(((v[10]-v[6])/v[14]+1)-1)*((v[11]-v[7])/v[15]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_49(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*(((v[10]-v[6])/v[14]+1)-1)*((v[11]-v[7])/v[15]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_50(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)*(((v[11]-v[7])/v[15]+1)-1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_51(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=2*((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)*(((v[11]-v[7])/v[15]+1)-1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_52(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=v[20]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_53(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]-1;break;case 22:o[0][1]=v[20]*1-1;break;case 23:o[0][1]=v[20]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_54(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=v[20]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_55(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=v[20]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_56(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]-1;break;case 22:o[0][1]=v[20]*2-1;break;case 23:o[0][1]=v[20]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_57(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=v[20]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_58(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=v[20]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_59(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=v[20]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_60(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=v[20]*3-1;break;case 23:o[0][1]=v[20]-1;break;case 24:o[0][1]=0;break;}}
static void DH9_61(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_62(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_63(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_64(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_65(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_66(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_67(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_68(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_69(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_70(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_71(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_72(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
static void DH9_73(const long*v,int a,long(*o)[2]){o[0][0]=0;switch(a){case 21:o[0][1]=v[0]*v[1]*v[2]*v[3]-1;break;case 22:o[0][1]=1-1;break;case 23:o[0][1]=((v[8]-v[4])/v[12]+1)*((v[9]-v[5])/v[13]+1)*((v[10]-v[6])/v[14]+1)-1;break;case 24:o[0][1]=0;break;}}
#define HARNESS_09 {"it_sub1","C09",25,AH9,DH9_0,"1s0"},{"it_sub2","C09",25,AH9,DH9_1,"2s0"},{"it_sub3","C09",25,AH9,DH9_2,"3s0"},{"it_sub4","C09",25,AH9,DH9_3,"4s0"},{"it_subw1","C09",25,AH9,DH9_4,"1S0"},{"it_subw2","C09",25,AH9,DH9_5,"2S0"},{"it_subw3","C09",25,AH9,DH9_6,"3S0"},{"it_subw4","C09",25,AH9,DH9_7,"4S0"},{"it_tr01","C09",25,AH9,DH9_8,"2t01"},{"it_tr10","C09",25,AH9,DH9_9,"2t10"},{"it_tr012","C09",25,AH9,DH9_10,"3t012"},{"it_tr021","C09",25,AH9,DH9_11,"3t021"},{"it_tr102","C09",25,AH9,DH9_12,"3t102"},{"it_tr120","C09",25,AH9,DH9_13,"3t120"},{"it_tr201","C09",25,AH9,DH9_14,"3t201"},{"it_tr210","C09",25,AH9,DH9_15,"3t210"},{"it_tr0123","C09",25,AH9,DH9_16,"4t0123"},{"it_tr3210","C09",25,AH9,DH9_17,"4t3210"},{"it_tr1302","C09",25,AH9,DH9_18,"4t1302"},{"it_tr2031","C09",25,AH9,DH9_19,"4t2031"},{"it_tr0213","C09",25,AH9,DH9_20,"4t0213"},{"it_tr3012","C09",25,AH9,DH9_21,"4t3012"},{"it_trw10","C09",25,AH9,DH9_22,"2T10"},{"it_trw201","C09",25,AH9,DH9_23,"3T201"},{"it_trw120","C09",25,AH9,DH9_24,"3T120"},{"it_trw3120","C09",25,AH9,DH9_25,"4T3120"},{"it_sts10","C09",25,AH9,DH9_26,"1g0"},{"it_std10","C09",25,AH9,DH9_27,"1g0"},{"it_fs10","C09",25,AH9,DH9_28,"1f0"},{"it_sts20","C09",25,AH9,DH9_29,"2g0"},{"it_std20","C09",25,AH9,DH9_30,"2g0"},{"it_fs20","C09",25,AH9,DH9_31,"2f0"},{"it_sts21","C09",25,AH9,DH9_32,"2g1"},{"it_std21","C09",25,AH9,DH9_33,"2g1"},{"it_fs21","C09",25,AH9,DH9_34,"2f1"},{"it_sts30","C09",25,AH9,DH9_35,"3g0"},{"it_std30","C09",25,AH9,DH9_36,"3g0"},{"it_fs30","C09",25,AH9,DH9_37,"3f0"},{"it_sts31","C09",25,AH9,DH9_38,"3g1"},{"it_std31","C09",25,AH9,DH9_39,"3g1"},{"it_fs31","C09",25,AH9,DH9_40,"3f1"},{"it_sts32","C09",25,AH9,DH9_41,"3g2"},{"it_std32","C09",25,AH9,DH9_42,"3g2"},{"it_fs32","C09",25,AH9,DH9_43,"3f2"},{"it_sts40","C09",25,AH9,DH9_44,"4g0"},{"it_std40","C09",25,AH9,DH9_45,"4g0"},{"it_sts41","C09",25,AH9,DH9_46,"4g1"},{"it_std41","C09",25,AH9,DH9_47,"4g1"},{"it_sts42","C09",25,AH9,DH9_48,"4g2"},{"it_std42","C09",25,AH9,DH9_49,"4g2"},{"it_sts43","C09",25,AH9,DH9_50,"4g3"},{"it_std43","C09",25,AH9,DH9_51,"4g3"},{"it_cf10","C09",25,AH9,DH9_52,"1c0"},{"it_off1","C09",25,AH9,DH9_53,"1o0"},{"it_cf20","C09",25,AH9,DH9_54,"2c0"},{"it_cf21","C09",25,AH9,DH9_55,"2c1"},{"it_off2","C09",25,AH9,DH9_56,"2o0"},{"it_cf30","C09",25,AH9,DH9_57,"3c0"},{"it_cf31","C09",25,AH9,DH9_58,"3c1"},{"it_cf32","C09",25,AH9,DH9_59,"3c2"},{"it_off3","C09",25,AH9,DH9_60,"3o0"},{"it_sp20","C09",25,AH9,DH9_61,"2p01"},{"it_sp21","C09",25,AH9,DH9_62,"2p10"},{"it_sp30","C09",25,AH9,DH9_63,"3p012"},{"it_sp31","C09",25,AH9,DH9_64,"3p021"},{"it_sp32","C09",25,AH9,DH9_65,"3p102"},{"it_sp33","C09",25,AH9,DH9_66,"3p120"},{"it_sp34","C09",25,AH9,DH9_67,"3p201"},{"it_sp35","C09",25,AH9,DH9_68,"3p210"},{"it_win0","C09",25,AH9,DH9_69,"2w0"},{"it_win1","C09",25,AH9,DH9_70,"3w01"},{"it_win2","C09",25,AH9,DH9_71,"3w10"},{"it_win3","C09",25,AH9,DH9_72,"4w012"},{"it_win4","C09",25,AH9,DH9_73,"4w201"}

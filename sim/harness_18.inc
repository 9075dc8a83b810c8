static const ArgD AH18[]={{"lo0",'i',0,0},{"hi0",'i',0,0},{"lo1",'i',0,0},{"hi1",'i',0,0},{"lo2",'i',0,0},{"hi2",'i',0,0},{"g",'i',0,0},{"steps",'i',0,0},{"noff",'i',0,0},{"ndim",'i',0,0},{"alt",'i',0,0},{"hist",'I',1,0},{"disagreements",'D',1,1},{"scratch",'D',1,1}};
static void DH18(const long*v,int a,long(*o)[2]){long P=1;for(int i=0;i<3;i++)P*=v[2*i+1]-v[2*i]+4+2*v[6];o[0][0]=0;o[0][1]=a==11?4*v[7]-1:a==12?1:4*P+1200;}
#define HARNESS_18 {"vec1","C18",14,AH18,DH18,"1V"},{"vec2","C18",14,AH18,DH18,"2V"},{"vec3","C18",14,AH18,DH18,"3V"}

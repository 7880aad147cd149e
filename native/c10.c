#include "vp.h"
/* model of a names object */
typedef struct {char *s[3][300]; int n[3]; char *title,*vec;} mn; /* 0=r 1=c 2=t */
static const char K[]="rct";
static void madd(mn *m,const char *s,char t){ if(t=='h'){ m->title=strdup(s); return; } if(t=='v'){ m->vec=strdup(s); return; } int k=strchr(K,t)-K; m->s[k][m->n[k]++]=strdup(s); }
static void same(mn *m,apop_name *n,const char *log){ int ct[]={n->rowct,n->colct,n->textct}; char **l[]={n->row,n->col,n->text};
    for(int k=0;k<3;k++){ CHECK(ct[k]==m->n[k],"%c count %d, expected %d after %s",K[k],ct[k],m->n[k],log); for(int i=0;i<ct[k];i++) CHECK(!strcmp(l[k][i],m->s[k][i]),"%c name %d is <%s>, expected <%s> after %s",K[k],i,l[k][i],m->s[k][i],log); }
    CHECK(!n->title==!m->title && (!n->title||!strcmp(n->title,m->title)),"title <%s>, expected <%s> after %s",n->title?n->title:"NULL",m->title?m->title:"NULL",log); CHECK(!n->vector==!m->vec && (!n->vector||!strcmp(n->vector,m->vec)),"vector name <%s>, expected <%s> after %s",n->vector?n->vector:"NULL",m->vec?m->vec:"NULL",log); }
static int want(mn *m,const char *s,char t){ char l=tolower(t); int k=l=='r'?0:l=='t'?2:1; for(int i=0;i<m->n[k];i++) if(!strcmp(m->s[k][i],s)) return i; for(int i=0;i<m->n[k];i++) if(!strcasecmp(m->s[k][i],s)) return i; if(l=='c'&&m->vec&&!strcasecmp(m->vec,s)) return -1; return -2; }
static void finds(mn *m,apop_name *n,const char *log){ for(int q=0;q<14;q++){ char b[200]; int k=vp_int(0,3); if(k<3&&m->n[k]&&vp_chance(75)) strcpy(b,m->s[k][vp_int(0,m->n[k]-1)]); else if(k==3&&m->vec) strcpy(b,m->vec); else vp_str(b); if(vp_chance(60)) for(char*p=b;*p;p++) if(vp_flip()) *p=vp_flip()?toupper(*p):tolower(*p); if(vp_chance(15)) strcat(b,"x"); if(vp_chance(10)&&*b) b[strlen(b)-1]=0;
    char t="rctRCT"[vp_int(0,5)]; int w=want(m,b,t), g=apop_name_find(n,b,t); CHECK(g==w,"looking up <%s> among %c names gave %d, expected %d, after %s",b,t,g,w,log); } CHECK(apop_name_find(n,NULL,'c')==-2 && apop_name_find(NULL,"a",'c')==-2,"NULL"); }
static void mcopy(mn *d,mn *s){ memset(d,0,sizeof *d); for(int k=0;k<3;k++) for(int i=0;i<s->n[k];i++) madd(d,s->s[k][i],K[k]); if(s->title) madd(d,s->title,'h'); if(s->vec) madd(d,s->vec,'v'); }
static void history(int k){ apop_name *n[3]; static mn m[3]; memset(m,0,sizeof m); for(int i=0;i<3;i++) n[i]=apop_name_alloc(); char log[9000]=""; int steps=vp_int(3,40); vp_note("history %d steps %d first draw %d",k,steps,(int)(vp_u64()%100000));
    for(int s=0;s<steps && strlen(log)<8000;s++){ int a=vp_int(0,2), op=vp_int(0,9); char b[200];
        if(op<6){ char t="rctrcthv"[vp_int(0,7)], w[200]; vp_str(b); strcpy(w,b); sprintf(log+strlen(log),"add(%d,<%s>,%c) ",a,b,t); int r=apop_name_add(n[a],b,t); memset(b,35,strlen(b));
            madd(&m[a],w,t); int kk=strchr("rct",t)?strchr(K,t)-K:-1; CHECK(r==(kk<0?1:m[a].n[kk]),"add returned %d after %s",r,log); if(vp_chance(5)) CHECK(apop_name_add(n[a],NULL,t)==-1,"add of NULL"); }
        else if(op<9){ int c=vp_int(0,2); char t1="rct"[vp_int(0,2)], t2="rctv"[vp_int(0,3)]; if(a==c && t2=='v') continue; if(m[a].n[0]+m[c].n[0]>90||m[a].n[1]+m[c].n[1]>90||m[a].n[2]+m[c].n[2]>90) continue; int df=vp_int(0,3); sprintf(log+strlen(log),"stack(%d,%d,%c,%c,%d) ",a,c,t1,t2,df);
            if(df==0){ apop_name_stack(n[a],n[c]); t1=t2='r'; } else if(df==1){ apop_name_stack(n[a],n[c],t1); t2=t1; } else apop_name_stack(n[a],n[c],t1,t2);
            if(t2=='v'){ if(m[c].vec) madd(&m[a],m[c].vec,'v'); } else { int k1=strchr(K,t1)-K,k2=strchr(K,t2)-K, N=m[c].n[k2]; for(int i=0;i<N;i++) madd(&m[a],m[c].s[k2][i],K[k1]); } }
        else { int c=(a+1)%3; sprintf(log+strlen(log),"copy(%d->%d) ",a,c); apop_name *x=apop_name_copy(n[a]); apop_name_free(n[c]); n[c]=x; mcopy(&m[c],&m[a]); 
            for(int z=0;z<2;z++){ char **p[2][3]={{n[a]->row,n[a]->col,n[a]->text},{x->row,x->col,x->text}}; for(int kk=0;kk<3;kk++) for(int i=0;i<m[a].n[kk];i++) CHECK(p[0][kk][i]!=p[1][kk][i],"the copy shares a string after %s",log); } CHECK(!x->title||x->title!=n[a]->title,"title shared"); CHECK(!x->vector||x->vector!=n[a]->vector,"vector name shared"); }
        for(int q=0;q<3;q++) same(&m[q],n[q],log); finds(&m[a],n[a],log); }
    for(int q=0;q<3;q++) apop_name_free(n[q]); }
/* long lists and long names; a copy survives its source */
static void big(int k){ static mn m; memset(&m,0,sizeof m); apop_name *n=apop_name_alloc(); int N=vp_int(20,250); char t="rct"[vp_int(0,2)]; vp_note("%d %c names",N,t); for(int i=0;i<N;i++){ char b[300]; int l=vp_int(0,250); for(int j=0;j<l;j++) b[j]=' '+vp_int(0,94); sprintf(b+l,"%d",vp_int(0,N)); b[290]=0; apop_name_add(n,b,t); madd(&m,b,t); } apop_name_add(n,"T",'h'); madd(&m,"T",'h'); same(&m,n,"add"); 
    for(int i=0;i<N;i++){ int kk=strchr(K,t)-K; CHECK(apop_name_find(n,m.s[kk][i],t)==want(&m,m.s[kk][i],t),"lookup of name %d",i); }
    apop_name *c=apop_name_copy(n); apop_name *st=apop_name_alloc(); char t1="rct"[vp_int(0,2)]; apop_name_stack(st,n,t1,t); apop_name_free(n); same(&m,c,"copy and free"); for(int i=0;i<N;i++){ char **l=t1=='r'?st->row:t1=='c'?st->col:st->text; int kk=strchr(K,t)-K; CHECK(!strcmp(l[i],m.s[kk][i]),"stacked name %d",i); CHECK(apop_name_find(st,l[i],t1)==want(&m,l[i],t),"lookup in the stacked list"); } apop_name_free(c); apop_name_free(st); }
/* the title and the vector name hold the last value, whatever the lengths */
static void last(int k){ apop_name *n=apop_name_alloc(); char a[2][400]={"",""}; vp_note("last %d",k); for(int s=0;s<12;s++){ int w=vp_flip(); int l=vp_int(0,vp_flip()?5:390); for(int j=0;j<l;j++) a[w][j]="%dsn ax\\\""[vp_int(0,8)]; a[w][l]=0; apop_name_add(n,a[w],w?'v':'h'); if(n->title) CHECK(!strcmp(n->title,a[0]),"title <%s> expected <%s>",n->title,a[0]); if(n->vector) CHECK(!strcmp(n->vector,a[1]),"vector name <%s> expected <%s>",n->vector,a[1]); apop_name *c=apop_name_copy(n); CHECK(!n->title||!strcmp(c->title,n->title),"copied title"); CHECK(!n->vector||!strcmp(c->vector,n->vector),"copied vector name"); apop_name_free(n); n=c; } apop_name_free(n); }
static void nulls(int k){ vp_note("nulls"); apop_name *n=apop_name_alloc(); apop_name_add(n,"a",'r'); apop_name_stack(n,NULL); apop_name_stack(n,NULL,'c'); CHECK(n->rowct==1&&n->colct==0,"stacking nothing"); apop_name *e=apop_name_alloc(); apop_name_stack(n,e,'r'); apop_name_stack(n,e,'v'); CHECK(n->rowct==1 && !n->vector,"stacking empty"); apop_name_stack(e,n); CHECK(e->rowct==1&&!strcmp(e->row[0],"a"),"default kind"); apop_name_free(n); apop_name_free(e); apop_name_free(NULL); }
int main(int c,char**v){ vp_case cs[]={{"history",history,1200},{"big",big,60},{"last",last,100},{"nulls",nulls,1},{0}}; return vp_main(c,v,cs); }

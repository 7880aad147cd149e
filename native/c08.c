#include "vp.h"
#define N 12
static char *M[N][N]; static int R,C;
static char LOG[9000];
static void put(int i,int j,const char *s){ free(M[i][j]); M[i][j]=strdup(s); }
static void chk(apop_data *d){ CHECK(d->textsize[0]==R&&d->textsize[1]==C,"grid is %zux%zu, expected %dx%d after %s",d->textsize[0],d->textsize[1],R,C,LOG); for(int i=0;i<R;i++) for(int j=0;j<C;j++){ CHECK(d->text[i][j],"cell (%d,%d) is NULL after %s",i,j,LOG); CHECK(!strcmp(d->text[i][j],M[i][j]),"cell (%d,%d) is <%s>, expected <%s> after %s",i,j,d->text[i][j],M[i][j],LOG); } 
    for(int a=0;a<R;a++) for(int b=0;b<C;b++) if(*d->text[a][b]) for(int e=0;e<R;e++) for(int f=0;f<C;f++) if(a!=e||b!=f) CHECK(d->text[a][b]!=d->text[e][f],"cells (%d,%d) and (%d,%d) share a string after %s",a,b,e,f,LOG); }
static void history(int k){ LOG[0]=0; for(int i=0;i<N;i++) for(int j=0;j<N;j++){ free(M[i][j]); M[i][j]=strdup(""); } R=C=0; int st=vp_int(0,2); apop_data *d=st==0?NULL:st==1?apop_data_alloc():apop_data_alloc(2,2,2); int steps=vp_int(3,40); vp_note("history %d steps %d start %d first %d",k,steps,st,(int)(vp_u64()%100000)); char buf[200], big[300];
    for(int s=0;s<steps && strlen(LOG)<8000;s++){ int op=vp_int(0,9);
        if(op<4||!d){ int r=vp_int(0,N), c=vp_int(0,N); if(vp_chance(40)&&d){ r=R; c=C; if(vp_flip()) r=vp_int(0,N); else c=vp_int(0,N);} sprintf(LOG+strlen(LOG),"alloc(%d,%d) ",r,c); apop_data *o=apop_text_alloc(d,r,c); 
            if((!r)!=(!c)){ CHECK(o==d,"impossible size after %s",LOG); if(!d) continue; } else { CHECK(o && (!d||o==d),"another data set returned after %s",LOG); d=o; for(int i=0;i<N;i++) for(int j=0;j<N;j++) if(i>=r||j>=c||i>=R||j>=C) put(i,j,""); R=r; C=c; } CHECK(!d->error,"error"); }
        else if(op<8){ int i=vp_int(0,N-1), j=vp_int(0,N-1); size_t I=i,J=j; if(vp_chance(70)&&R&&C){ I=i=vp_int(0,R-1); J=j=vp_int(0,C-1); } if(vp_chance(6)){ size_t w[]={-1,(size_t)1<<32,((size_t)1<<32)+1,(size_t)1<<63,2147483647,2147483648u,R,C}; if(vp_flip()) I=w[vp_int(0,7)]; else J=w[vp_int(0,7)]; }
            int in=I<R&&J<C; if(in){ i=I; j=J; } int how=vp_int(0,5); sprintf(LOG+strlen(LOG),"set(%zu,%zu,%d) ",I,J,how); int rc; vp_str(buf);
            switch(how){ case 0: rc=apop_text_set(d,I,J,"%s",buf); if(in) put(i,j,buf); break; case 1: rc=apop_text_set(d,I,J,NULL); if(in) put(i,j,apop_opts.nan_string); break;
                case 2: snprintf(big,300,"n=%i g=%g %s|%5.2f%%",i,i/3.,buf,j/7.); rc=apop_text_set(d,I,J,"n=%i g=%g %s|%5.2f%%",i,i/3.,buf,j/7.); if(in) put(i,j,big); break;
                case 3: if(in){ snprintf(big,300,"%.200s!%s",M[i][j],buf); rc=apop_text_set(d,I,J,"%.200s!%s",d->text[i][j],buf); put(i,j,big);} else rc=apop_text_set(d,I,J,"x"); break;
                case 4: rc=apop_text_set(d,I,J,""); if(in) put(i,j,""); break; default: rc=apop_text_set(d,I,J,"plain"); if(in) put(i,j,"plain"); }
            CHECK((rc==0)==in,"set returned %d for a position %s the grid after %s",rc,in?"inside":"outside",LOG); }
        else if(op==8){ sprintf(LOG+strlen(LOG),"copy "); apop_data *c=apop_data_copy(d); chk(c); for(int i=0;i<R;i++) for(int j=0;j<C;j++) if(vp_flip()) apop_text_set(c,i,j,"changed"); if(vp_flip()){ apop_data_free(c); } else { int r=vp_int(1,N); apop_text_alloc(c,r,r); apop_data_free(c);} }
        else if(R&&C){ sprintf(LOG+strlen(LOG),"fill "); int n=vp_chance(75)?R*C:vp_int(0,R*C+3); char **l=calloc(n+1,sizeof(char*)); for(int q=0;q<n;q++){ vp_str(buf); l[q]=strdup(buf); if(q<R*C) put(q/C,q%C,buf); } CHECK(apop_text_fill_base(d,l)==d,"fill"); for(int q=0;q<n;q++) free(l[q]); free(l); }
        if(d) chk(d); }
    if(d){ char *x=vp_ser(d); free(x); apop_data_free(d);} }
/* grow and shrink one dimension at a time, every direction */
static void shapes(int k){ LOG[0]=0; for(int i=0;i<N;i++) for(int j=0;j<N;j++) put(i,j,""); int r0=k%5+1,c0=k/5%5+1,r1=k/25%5+1,c1=k/125%5+1; vp_note("%dx%d to %dx%d",r0,c0,r1,c1); apop_data *d=apop_text_alloc(NULL,r0,c0); R=r0;C=c0; for(int i=0;i<r0;i++) for(int j=0;j<c0;j++) if(vp_chance(80)){ char b[30]; sprintf(b,"%d,%d",i,j); apop_text_set(d,i,j,"%s",b); put(i,j,b);} CHECK(apop_text_alloc(d,r1,c1)==d,"pointer"); for(int i=0;i<N;i++) for(int j=0;j<N;j++) if(i>=r0||j>=c0||i>=r1||j>=c1) put(i,j,""); R=r1;C=c1; chk(d); for(int i=0;i<R;i++) for(int j=0;j<C;j++){ apop_text_set(d,i,j,"z%d.%d",i,j); char b[30]; sprintf(b,"z%d.%d",i,j); put(i,j,b);} chk(d); apop_text_alloc(d,0,0); R=C=0; chk(d); apop_text_alloc(d,2,3); R=2;C=3; for(int i=0;i<N;i++) for(int j=0;j<N;j++) put(i,j,""); chk(d); apop_data_free(d); }
static void nulls(int k){ vp_note("nulls"); CHECK(apop_text_set(NULL,0,0,"x")!=0,"set in NULL"); apop_data *d=apop_data_alloc(3,3,3); CHECK(apop_text_set(d,0,0,"x")!=0,"set without a grid"); CHECK(!apop_text_alloc(NULL,0,3)&&!apop_text_alloc(NULL,3,0),"impossible"); apop_data *e=apop_text_alloc(NULL,0,0); CHECK(e&&!e->textsize[0],"empty"); apop_data_free(e); CHECK(apop_text_fill_base(NULL,(char*[]){NULL})==NULL,"fill NULL"); apop_data_free(d); }
int main(int c,char**v){ vp_case cs[]={{"history",history,1500},{"shapes",shapes,625},{"nulls",nulls,1},{0}}; return vp_main(c,v,cs); }

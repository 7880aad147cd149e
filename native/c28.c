#include "vp.h"
#include <regex.h>
static int pr(apop_data *d,int i,int j,void *p){ char *m=p; return m[i*8+j]; }
static void paste(int k){ int r=vp_int(0,4),c=vp_int(1,4); char buf[100]; apop_data *d=apop_data_alloc(); if(r) d=apop_text_alloc(d,r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) apop_text_set(d,i,j,"%s",vp_str(buf));
    const char *S[]={NULL,"",", ","|","');\n('","%s"}; char *bt=(char*)S[vp_int(0,5)],*bf=(char*)S[vp_int(0,5)],*af=(char*)S[vp_int(0,5)],*bc=(char*)S[vp_int(0,5)]; char mask[64]; int usep=vp_flip(); for(int i=0;i<64;i++) mask[i]=vp_chance(vp_flip()?80:30);
    char *s0=vp_ser(d); vp_note("between=%s before=%s after=%s cols=%s prune=%d data=%s",bt?bt:"-",bf?bf:"-",af?af:"-",bc?bc:"-",usep,s0); char *B=bt?bt:" ",*C=bc?bc:B;
    vp_sb o={0}; int any=bf||af; sb(&o,"%s",bf?bf:""); int rows=0; for(int i=0;i<r;i++){ int cells=0; for(int j=0;j<c;j++){ if(usep&&mask[i*8+j]) continue; if(!cells&&rows) sb(&o,"%s",B); if(cells) sb(&o,"%s",C); sb(&o,"%s",d->text[i][j]); cells++; any=1; } if(cells) rows++; } sb(&o,"%s",af?af:"");
    char *got=apop_text_paste(r||vp_flip()?d:NULL,bt,bf,af,bc,usep?pr:NULL,mask); CHECK(!got==!any,"absent result"); if(got) CHECK(!strcmp(got,o.s),"pasted <%s>, expected <%s>",got,o.s);
    char *s1=vp_ser(d); CHECK(!strcmp(s0,s1),"input changed"); free(got); free(o.s); free(s0); free(s1); apop_data_free(d); }
static void harmonic(int k){ double S[]={0,.5,1,1.5,2,-1,3}; vp_sb h={0}; for(int q=0;q<12;q++){ int N=vp_int(1,vp_chance(20)?2000:40); double s=S[vp_int(0,6)]+(vp_chance(10)?vp_int(1,99)/100.:0); sb(&h,"H(%d,%g) ",N,s); vp_note("%s",h.s); long double e=0; for(int i=1;i<=N;i++) e+=1/pow(i,s); long double g=apop_generalized_harmonic(N,s); CHECK(fabsl(g-e)<=1e-9L*fabsl(e),"H(%d,%g) is %.15Lg, not %.15Lg",N,s,g,e); CHECK(isnan((double)apop_generalized_harmonic(-vp_int(0,3),s)),"no terms"); } free(h.s); }
static int nparens(const char *re){ int n=0; for(;*re;re++){ if(*re=='\\'){ re++; continue; } if(*re==')') n++; } return n; }
static void rx(int k){ static const char *P[]={"([a-z]+)([0-9]*)","(a)|(b)","a","(ab*)","^(a)","(b)$","([^,]*),([^,]*)","((a)(b))?c","\\(([a-z]*)\\)","x*","(x*)","(a|b)*c","([0-9])","B","(A)","()","^.*$","(.)(.)","((a)|(b))+","((a)|(b)|(c))*","((a*)(b))+[0-9]?","(x)?(y)?a",NULL}; static const int n=22; const char *re=P[vp_int(0,n-1)]; char str[40]; int l=vp_int(0,14); for(int i=0;i<l;i++) str[i]="abcABC019,x()"[vp_int(0,12)]; str[l]=0; char uc=vp_flip()?'y':'n'; vp_note("regex <%s> on <%s> case %c",re,str,uc);
    int cols=nparens(re); regex_t R; CHECK(!regcomp(&R,re,REG_EXTENDED|(uc=='y'?0:REG_ICASE)),"harness"); regmatch_t m[8]; char exp[60][8][40]; int rows=0; const char *p=str; while(rows<60&&!regexec(&R,p,8,m,rows?REG_NOTBOL:0)){ for(int i=0;i<cols;i++){ int L=m[i+1].rm_so<0?0:m[i+1].rm_eo-m[i+1].rm_so; if(L) memcpy(exp[rows][i],p+m[i+1].rm_so,L); exp[rows][i][L]=0; } rows++; p+=m[0].rm_eo; if(m[0].rm_eo==m[0].rm_so&&*p) p++; if(!*p) break; } regfree(&R);
    char cp[40],rc[60]; strcpy(cp,str); strcpy(rc,re); int f=apop_regex(cp,rc,NULL,uc); CHECK((f>0)==(rows>0),"without substrings: %d, %d matches exist",f,rows); apop_data *o=(void*)1; f=apop_regex(cp,rc,&o,uc); CHECK(f==rows,"%d matches, %d exist",f,rows); CHECK(o,"no table"); CHECK((int)o->textsize[0]==(cols?rows:o->textsize[0]),"%zu rows of captures for %d matches",o->textsize[0],rows); if(cols&&rows) CHECK((int)o->textsize[1]==cols,"columns");
    if(cols) for(int i=0;i<rows;i++) for(int j=0;j<cols;j++) CHECK(!strcmp(o->text[i][j],exp[i][j]),"match %d capture %d is <%s>, not <%s>",i,j,o->text[i][j],exp[i][j]);
    CHECK(!strcmp(cp,str)&&!strcmp(rc,re),"input changed"); apop_data_free(o); o=(void*)1; CHECK(apop_regex(NULL,re,&o)==0&&!o,"no string"); CHECK(apop_regex("a",NULL)==-1,"no regex"); CHECK(apop_regex("a","(")==-1,"bad regex"); }
/* a match of an empty string, at a position that is not the first */
int main(int c,char**v){ vp_case cs[]={{"paste",paste,8000},{"harmonic",harmonic,600},{"regex",rx,8000},{0}}; return vp_main(c,v,cs); }

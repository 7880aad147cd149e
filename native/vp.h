/* Replay / bounded-search harness: executable contract oracles run against the real library. */
#pragma once
#include <apop.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <math.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sanitizer/asan_interface.h>

static uint64_t vp_s;
static uint64_t vp_u64(void){ uint64_t z = (vp_s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z>>30))*0xbf58476d1ce4e5b9ULL; z = (z ^ (z>>27))*0x94d049bb133111ebULL; return z ^ (z>>31); }
static int vp_int(int lo, int hi){ return lo + (int)(vp_u64() % (uint64_t)(hi-lo+1)); }   /* inclusive */
static double vp_unif(void){ return (vp_u64()>>11) * (1.0/9007199254740992.0); }
static int vp_flip(void){ return vp_u64() & 1; }
static int vp_chance(int pct){ return vp_int(0,99) < pct; }

static const char *vp_case_name="?"; static int vp_k; static char vp_desc[4096]; static int vp_done; static int vp_quiet;
static long vp_evals, vp_distinct; static uint64_t *vp_set; static size_t vp_setcap;
static char vp_samples[6][400]; static int vp_nsamples;
static void vp_out(const char *fmt, ...){ char b[6000]; va_list a; va_start(a,fmt); int n=vsnprintf(b,sizeof b,fmt,a); va_end(a); if(n>(int)sizeof b-1) n=sizeof b-1; if (write(1,b,n)){}; }
static void vp_die(const char *why){ if (vp_done) return; vp_done=1; vp_out("\nFAIL case=%s k=%d input={%s} why=%s\n", vp_case_name, vp_k, vp_desc, why); }
static void vp_death(void){ vp_die("memory error or abort (see sanitizer report)"); }
static void vp_sig(int s){ char b[64]; snprintf(b,sizeof b,"signal %d%s",s,s==SIGALRM?" (did not finish)":""); vp_die(b); _exit(3); }
static void vp_atexit(void){ vp_die("the library called exit()"); }
#define FAIL(...) do{ char vpb_[3000]; snprintf(vpb_,sizeof vpb_,__VA_ARGS__); vp_die(vpb_); _exit(3); }while(0)
#define CHECK(c,...) do{ if(!(c)) FAIL(__VA_ARGS__); }while(0)
/* describe the input of the current case: counted as distinct & non-trivial when new */
static void vp_note(const char *fmt, ...){
    va_list a; va_start(a,fmt); vsnprintf(vp_desc,sizeof vp_desc,fmt,a); va_end(a);
    for(char *c=vp_desc;*c;c++) if(*c=='\n') *c='~';
    uint64_t h=1469598103934665603ULL; for(const char *c=vp_case_name;*c;c++) h=(h^(uint8_t)*c)*1099511628211ULL; for(char *c=vp_desc;*c;c++) h=(h^(uint8_t)*c)*1099511628211ULL; if(!h) h=1;
    if (!vp_set){ vp_setcap=1<<20; vp_set=calloc(vp_setcap,8);} 
    vp_evals++;
    size_t i=h&(vp_setcap-1); while(vp_set[i] && vp_set[i]!=h) i=(i+1)&(vp_setcap-1);
    if(!vp_set[i] && vp_distinct < (long)vp_setcap/2){ vp_set[i]=h; vp_distinct++; if((vp_distinct&(vp_distinct-1))==0 && vp_nsamples<6) snprintf(vp_samples[vp_nsamples++],400,"%s: %s",vp_case_name,vp_desc);} 
}
/* numbers ----------------------------------------------------------------------------------*/
static int vp_same(double a,double b){ return (isnan(a)&&isnan(b)) || a==b; }
static int vp_close(double a,double b,double tol){ if (isnan(a)||isnan(b)) return isnan(a)&&isnan(b); if (a==b) return 1; double m=fmax(fabs(a),fabs(b)); return fabs(a-b)<=tol*fmax(1,m); }
static double vp_num(void){ switch(vp_int(0,11)){case 0:return 0;case 1:return NAN;case 2:return -1;case 3:return 1e300*(vp_flip()?1:-1);case 4:return 0.5; default: return vp_int(-50,50)+ (vp_flip()?0.25:0);} }
static double vp_fin(void){ return vp_int(-40,40) + (vp_chance(40)? vp_int(0,7)/8. : 0); }
/* strings */
static const char *vp_strs[]={"","a","b","B","ab","Ab","aB","abc","row one","x y","caf\xc3\xa9","1","2.5","it's","a,b","a|b","quote\"q","100%","%d apples","tab\there","x_y","_","A","zeta","NaN","nan","0"};
static char *vp_str(char *buf){ int n=sizeof vp_strs/sizeof *vp_strs; if(vp_chance(80)) strcpy(buf,vp_strs[vp_int(0,n-1)]); else { int l=vp_int(1,vp_chance(10)?60:8); for(int i=0;i<l;i++) buf[i]="abcdefghijklmnopqrstuvwxyzABCDEF 0123456789"[vp_int(0,42)]; buf[l]=0;} return buf; }
static char *vp_word(char *buf){ int l=vp_int(1,6); for(int i=0;i<l;i++) buf[i]="abcdefghijklmnopqrstuvwxyz"[vp_int(0,25)]; buf[l]=0; return buf; }
/* growing string -------------------------------------------------------------------------- */
typedef struct {char *s; size_t n, cap;} vp_sb;
static void sb(vp_sb *b,const char *fmt,...){ va_list a; va_start(a,fmt); int n=vsnprintf(NULL,0,fmt,a); va_end(a); if(b->n+n+1>b->cap){ b->cap=(b->n+n+1)*2; b->s=realloc(b->s,b->cap);} va_start(a,fmt); vsnprintf(b->s+b->n,n+1,fmt,a); va_end(a); b->n+=n; }
static void vp_ser_vec(vp_sb *b,const char *tag,gsl_vector const *v){ if(!v){sb(b,"%s=NULL;",tag);return;} sb(b,"%s[%zu]=",tag,v->size); for(size_t i=0;i<v->size;i++) isnan(v->data[i*v->stride])? sb(b,"nan,") : sb(b,"%.17g,",v->data[i*v->stride]); sb(b,";"); }
static void vp_ser_mat(vp_sb *b,const char *tag,gsl_matrix const *m){ if(!m){sb(b,"%s=NULL;",tag);return;} sb(b,"%s[%zux%zu]=",tag,m->size1,m->size2); for(size_t i=0;i<m->size1;i++) for(size_t j=0;j<m->size2;j++){ double x=m->data[i*m->tda+j]; isnan(x)? sb(b,"nan,") : sb(b,"%.17g,",x);} sb(b,";"); }
static void vp_ser_names(vp_sb *b,apop_name const *n){ if(!n){sb(b,"names=NULL;");return;} sb(b,"title=<%s>;vecname=<%s>;",n->title?n->title:"\001",n->vector?n->vector:"\001");
    sb(b,"col="); for(int i=0;i<n->colct;i++) sb(b,"<%s>",n->col[i]); sb(b,";row="); for(int i=0;i<n->rowct;i++) sb(b,"<%s>",n->row[i]); sb(b,";text="); for(int i=0;i<n->textct;i++) sb(b,"<%s>",n->text[i]); sb(b,";"); }
static void vp_ser_one(vp_sb *b,apop_data const *d){ vp_ser_vec(b,"v",d->vector); vp_ser_mat(b,"m",d->matrix); vp_ser_vec(b,"w",d->weights); vp_ser_names(b,d->names);
    sb(b,"text[%zux%zu]=",d->textsize[0],d->textsize[1]); for(size_t i=0;i<d->textsize[0];i++) for(size_t j=0;j<d->textsize[1];j++) sb(b,"<%s>",d->text[i][j]); sb(b,";"); }
/* full serialisation of a data set, pages included; \001 = absent title */
static char *vp_ser(apop_data const *d){ vp_sb b={0}; sb(&b,""); int n=0; for(; d; d=d->more){ sb(&b,"{page%d ",n++); vp_ser_one(&b,d); sb(&b,"}"); if(n>50){sb(&b,"CYCLE");break;} } if(!n) sb(&b,"NULL"); return b.s; }
static char *vp_ser1(apop_data const *d){ vp_sb b={0}; sb(&b,""); if(d) vp_ser_one(&b,d); else sb(&b,"NULL"); return b.s; }
static char *vp_servec(gsl_vector const*v){ vp_sb b={0}; sb(&b,""); vp_ser_vec(&b,"v",v); return b.s; }
static char *vp_sermat(gsl_matrix const*v){ vp_sb b={0}; sb(&b,""); vp_ser_mat(&b,"m",v); return b.s; }
static char *vp_sernames(apop_name const*v){ vp_sb b={0}; sb(&b,""); vp_ser_names(&b,v); return b.s; }
/* generators --------------------------------------------------------------------------------*/
enum {G_V=1,G_M=2,G_W=4,G_T=8,G_RN=16,G_CN=32,G_TN=64,G_VN=128,G_TITLE=256,G_MORE=512,G_FIN=1024,G_UNIQ=2048};
static apop_data *vp_data(int f,int rows,int mcols,int tcols){ char buf[100], b2[140];
    apop_data *d=apop_data_alloc(); if((f&G_V)&&rows) d->vector=gsl_vector_alloc(rows); if((f&G_M)&&rows&&mcols) d->matrix=gsl_matrix_alloc(rows,mcols);
    if(d->vector) for(int i=0;i<rows;i++) gsl_vector_set(d->vector,i,(f&G_FIN)?vp_fin():vp_num());
    if(d->matrix) for(int i=0;i<rows;i++) for(int j=0;j<mcols;j++) gsl_matrix_set(d->matrix,i,j,(f&G_FIN)?vp_fin():vp_num());
    if((f&G_W)&&rows){ d->weights=gsl_vector_alloc(rows); for(int i=0;i<rows;i++) gsl_vector_set(d->weights,i,vp_int(1,9)/(double)vp_int(1,4)); }
    if((f&G_T)&&rows&&tcols){ d->text=malloc(sizeof(char**)*rows); d->textsize[0]=rows; d->textsize[1]=tcols; for(int i=0;i<rows;i++){ d->text[i]=malloc(sizeof(char*)*tcols); for(int j=0;j<tcols;j++) d->text[i][j]=strdup(vp_str(buf)); } }
    if(f&G_TITLE) apop_name_add(d->names,vp_str(buf),'h');
    if(f&G_VN) apop_name_add(d->names,vp_str(buf),'v');
    if(f&G_CN) for(int j=0;j<mcols;j++){ if(f&G_UNIQ) sprintf(b2,"c%d%s",j,vp_word(buf)); else strcpy(b2,vp_str(buf)); apop_name_add(d->names,b2,'c'); }
    if(f&G_RN) for(int j=0;j<rows;j++){ if(f&G_UNIQ) sprintf(b2,"r%d%s",j,vp_word(buf)); else strcpy(b2,vp_str(buf)); apop_name_add(d->names,b2,'r'); }
    if(f&G_TN) for(int j=0;j<tcols;j++){ if(f&G_UNIQ) sprintf(b2,"t%d%s",j,vp_word(buf)); else strcpy(b2,vp_str(buf)); apop_name_add(d->names,b2,'t'); }
    return d; }
static int vp_flags(int allowed){ return (int)(vp_u64() & allowed); }
/* main ---------------------------------------------------------------------------------------*/
typedef struct {const char *name; void (*fn)(int k); int n;} vp_case;
static int vp_main(int argc,char**argv,vp_case *cs){
    uint64_t seed=1; double scale=1; const char *only=NULL; int onlyk=-1;
    for(int i=1;i<argc-1;i++){ if(!strcmp(argv[i],"--seed")) seed=strtoull(argv[++i],0,10); else if(!strcmp(argv[i],"--scale")) scale=atof(argv[++i]); else if(!strcmp(argv[i],"--case")) only=argv[++i]; else if(!strcmp(argv[i],"--k")) onlyk=atoi(argv[++i]); }
    __asan_set_death_callback(vp_death);
    signal(SIGABRT,vp_sig); signal(SIGALRM,vp_sig); signal(SIGFPE,vp_sig); atexit(vp_atexit);
    apop_opts.verbose=-1; apop_opts.stop_on_warning='n';
    for(vp_case *c=cs;c->name;c++){
        if(only && strcmp(only,c->name)) continue;
        if(!only && c->n<0) continue;      /* n<0: known-finding demonstrations, run by name only */
        int n=abs(c->n)>1 ? (int)(abs(c->n)*scale) : abs(c->n);
        for(int k=0;k<n || (onlyk>=0 && k<=onlyk);k++){
            if(onlyk>=0 && k!=onlyk) continue;
            vp_case_name=c->name; vp_k=k; vp_desc[0]=0; 
            uint64_t h=seed; for(const char *q=c->name;*q;q++) h=h*131+(uint8_t)*q; vp_s=h*1000003ULL+k;
            alarm(60); c->fn(k); alarm(0);
        }
    }
    vp_done=1;
    for(int i=0;i<vp_nsamples;i++) vp_out("SAMPLE %s\n",vp_samples[i]);
    vp_out("STATS evaluations=%ld distinct=%ld\n",vp_evals,vp_distinct);
    return 0; }

#include "vp.h"
void *apop_settings_get_grp(apop_model *m, char *type, char fail); void apop_settings_remove_group(apop_model *m, char *delme); void apop_settings_copy_group(apop_model *outm, apop_model *inm, char *copyme); void *apop_settings_group_alloc(apop_model *model, char *type, void *free_fn, void *copy_fn, void *the_group);
typedef struct {int id, frees, val; void *from;} grp;
static grp *made[4000]; static int nmade; static int frees2;
static grp *mk(int v){ grp *g=calloc(1,sizeof *g); g->id=nmade; g->val=v; made[nmade++]=g; return g; }
static void fr1(void *g){ ((grp*)g)->frees++; } static void fr2(void *g){ ((grp*)g)->frees+=1000; frees2++; }
static void *cp1(void *g){ grp *x=mk(((grp*)g)->val); x->from=g; return x; } static void *cp2(void *g){ grp *x=mk(((grp*)g)->val+1000000); x->from=g; return x; }
static char *names[]={"apop_mcmc","apop_mle","x","a_rather_long_group_name_for_a_model_that_goes_on_and_on_0123456789","apop_pm","ab","ba","apop_ml","apop_mlee","q9"};
typedef struct {int nm; grp *g; void *cp,*fr;} ent; typedef struct {ent e[40]; int n; apop_model *m;} mod;
#define HOW(x) ((x).fr==(void*)fr2?1000:1) /* each destruction is counted by the destructor it went through */
static int at(mod *m,int nm){ for(int i=0;i<m->n;i++) if(m->e[i].nm==nm) return i; return -1; }
static void rm(mod *m,int i){ for(;i<m->n-1;i++) m->e[i]=m->e[i+1]; m->n--; }
static char *key(int nm){ static char b[4][120]; static int k; k=(k+1)%4; strcpy(b[k],names[nm]); return b[k]; }
static void chk(mod *m,char*log){ for(int t=0;t<10;t++){ int i=at(m,t); void *g=apop_settings_get_grp(m->m,key(t),'c'); CHECK(g==(i<0?NULL:(void*)m->e[i].g),"group %d found %p, expected %p after %s",t,g,i<0?NULL:(void*)m->e[i].g,log); } CHECK(!apop_settings_get_grp(m->m,"never",'c'),"unknown group"); }
static void history(int k){ nmade=0; mod M[3]; int wantf[4000]={0}; for(int i=0;i<3;i++){ M[i].n=0; M[i].m=apop_model_copy(apop_normal); } int nn=vp_int(1,10), steps=vp_int(4,50); char log[6000]=""; vp_note("history %d names %d steps %d",k,nn,steps);
    for(int s=0;s<steps;s++){ int mi=vp_int(0,2), t=vp_int(0,nn-1), op=vp_int(0,9), i=at(M+mi,t); mod *m=M+mi; 
        if(op<4){ sprintf(log+strlen(log),"add(%d,%d) ",mi,t); grp *g=mk(s); void *f=vp_flip()?fr1:fr2, *c=vp_chance(25)?NULL:vp_flip()?cp1:cp2; if(i>=0){ wantf[m->e[i].g->id]+=HOW(m->e[i]); rm(m,i); } void *r=apop_settings_group_alloc(m->m,key(t),f,c,g); CHECK(r==g,"group_alloc returned another group after %s",log); m->e[m->n++]=(ent){t,g,c,f}; }
        else if(op<7){ sprintf(log+strlen(log),"rm(%d,%d) ",mi,t); if(i>=0){ wantf[m->e[i].g->id]+=HOW(m->e[i]); rm(m,i); } apop_settings_remove_group(m->m,key(t)); }
        else { int to=(mi+vp_int(1,2))%3; mod *o=M+to; sprintf(log+strlen(log),"copy(%d->%d,%d) ",mi,to,t); int j=at(o,t), nm0=nmade; char e0=o->m->error; if(i>=0&&!m->e[i].cp) continue; int had=m->m->settings!=NULL; o->m->error=0; apop_settings_copy_group(o->m,m->m,key(t)); 
            if(i>=0){ CHECK(nmade==nm0+1,"copier called %d times after %s",nmade-nm0,log); grp *g=made[nm0]; CHECK(g->from==m->e[i].g && g->val==m->e[i].g->val+(m->e[i].cp==(void*)cp2?1000000:0),"copied from the wrong group after %s",log); if(j>=0){ wantf[o->e[j].g->id]+=HOW(o->e[j]); rm(o,j); } o->e[o->n++]=(ent){t,g,m->e[i].cp,m->e[i].fr}; CHECK(!o->m->error,"error set"); } 
            else { CHECK(nmade==nm0,"copier called"); CHECK(!had||o->m->error=='s',"no error for a missing group after %s",log); } o->m->error=e0; }
        for(int q=0;q<3;q++) chk(M+q,log); for(int q=0;q<nmade;q++) CHECK(made[q]->frees==wantf[q],"group %d destroyed %d times, expected %d, after %s",q,made[q]->frees,wantf[q],log); }
    for(int q=0;q<3;q++){ for(int j=0;j<M[q].n;j++) wantf[M[q].e[j].g->id]+=HOW(M[q].e[j]); apop_model_free(M[q].m); }
    for(int q=0;q<nmade;q++){ CHECK(made[q]->frees==wantf[q],"group %d destroyed %d times, expected %d, at the end, after %s",q,made[q]->frees,wantf[q],log); } for(int q=0;q<nmade;q++) free(made[q]); }
/* which destructor: each group must go through its own */
static void own(int k){ nmade=0; apop_model *m=apop_model_copy(apop_normal); int n=vp_int(2,9), w2=0; vp_note("own %d n %d",k,n); int kind[10]; for(int i=0;i<n;i++){ kind[i]=vp_flip(); apop_settings_group_alloc(m,key(i),kind[i]?fr2:fr1,cp1,mk(i)); } frees2=0; int left[10]; for(int i=0;i<n;i++) left[i]=i; for(int r=n;r>0;r--){ int q=vp_int(0,r-1), t=left[q]; left[q]=left[r-1]; apop_settings_remove_group(m,key(t)); w2+=kind[t]; CHECK(frees2==w2,"wrong destructor for group %d of %d",t,n); CHECK(made[t]->frees==(kind[t]?1000:1),"not destroyed"); } for(int i=0;i<n;i++) CHECK(!apop_settings_get_grp(m,key(i),'c'),"left behind"); apop_model_free(m); for(int i=0;i<n;i++){ CHECK(made[i]->frees==(kind[i]?1000:1),"destroyed twice"); free(made[i]); } }
/* whole-model copies carry every group, through its copier, and leave the source alone */
static void modelcopy(int k){ nmade=0; apop_model *m=apop_model_copy(apop_normal); int n=vp_int(0,9), perm[10]; for(int i=0;i<10;i++) perm[i]=i; for(int i=9;i>0;i--){ int j=vp_int(0,i),t=perm[i]; perm[i]=perm[j]; perm[j]=t; } vp_note("copy with %d groups first %d",n,n?perm[0]:-1); for(int i=0;i<n;i++) apop_settings_group_alloc(m,key(perm[i]),fr1,vp_flip()?cp1:cp2,mk(i)); apop_model *c=apop_model_copy(m); CHECK(nmade==2*n,"%d copies of %d groups",nmade-n,n); CHECK(!c->error,"error"); for(int i=0;i<n;i++){ CHECK(apop_settings_get_grp(m,key(perm[i]),'c')==made[i],"source changed"); grp *g=apop_settings_get_grp(c,key(perm[i]),'c'); CHECK(g&&g!=made[i]&&g->from==made[i],"copy of group %d",i); }
    for(int i=n;i<10;i++) CHECK(!apop_settings_get_grp(c,key(perm[i]),'c'),"extra group"); apop_model_free(c); for(int i=0;i<n;i++) CHECK(!made[i]->frees && apop_settings_get_grp(m,key(perm[i]),'c')==made[i],"freeing the copy touched the source"); apop_model_free(m); for(int i=0;i<2*n;i++){ CHECK(made[i]->frees==1,"group %d destroyed %d times",i,made[i]->frees); free(made[i]); } }
/* the real macros with the library's own groups */
static void macros(int k){ apop_model *m=apop_model_copy(apop_normal); int st[3]={0},v[3]; char log[2000]=""; vp_note("macros %d",k); for(int s=0;s<12;s++){ int g=vp_int(0,2),op=vp_int(0,3),x=vp_int(1,99999); sprintf(log+strlen(log),"%d:%d ",op,g); 
        if(op<2){ if(g==0){ Apop_settings_add_group(m,apop_mcmc,.periods=x); } else if(g==1){ Apop_settings_add_group(m,apop_mle,.max_iterations=x); } else { Apop_settings_add_group(m,apop_pm,.draws=x); } st[g]=1; v[g]=x; }
        else if(op==2){ if(g==0) Apop_settings_rm_group(m,apop_mcmc); else if(g==1) Apop_settings_rm_group(m,apop_mle); else Apop_settings_rm_group(m,apop_pm); st[g]=0; }
        else if(st[g]){ if(g==0){ Apop_settings_set(m,apop_mcmc,periods,x); } else if(g==1){ Apop_settings_set(m,apop_mle,max_iterations,x); } else { Apop_settings_set(m,apop_pm,draws,x); } v[g]=x; }
        apop_model *c=vp_chance(20)?apop_model_copy(m):NULL; for(int r=0;r<2;r++){ apop_model *q=r?c:m; if(!q) continue; CHECK((!!apop_settings_get_group(q,apop_mcmc))==st[0] && (!!apop_settings_get_group(q,apop_mle))==st[1] && (!!apop_settings_get_group(q,apop_pm))==st[2],"presence after %s",log); if(st[0]) CHECK(Apop_settings_get(q,apop_mcmc,periods)==v[0],"mcmc after %s",log); if(st[1]) CHECK(Apop_settings_get(q,apop_mle,max_iterations)==v[1],"mle after %s",log); if(st[2]) CHECK(Apop_settings_get(q,apop_pm,draws)==v[2],"pm after %s",log); } if(c) apop_model_free(c); } apop_model_free(m); }
int main(int c,char**v){ vp_case cs[]={{"history",history,700},{"own",own,200},{"modelcopy",modelcopy,200},{"macros",macros,120},{0}}; return vp_main(c,v,cs); }

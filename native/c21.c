#include "vp.h"
#define T 1e-9
#define E(v,i) gsl_vector_get(v,i)
#define G(m,i,j) gsl_matrix_get(m,i,j)
static gsl_matrix *hold[3]; static gsl_vector vw_[3]; static int nh;
static gsl_vector *mk(int n){ gsl_vector *v; if(n&&vp_chance(30)&&nh<3){ hold[nh]=gsl_matrix_alloc(n,3); gsl_matrix_set_all(hold[nh],1e9); vw_[nh]=gsl_matrix_column(hold[nh],vp_int(0,2)).vector; v=&vw_[nh++]; } else v=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(v,i,vp_chance(20)?0:vp_fin()); return v; }
static void rel(gsl_vector *v){ if(!v) return; for(int i=0;i<3;i++) if(v==&vw_[i]) return; gsl_vector_free(v); }
static void relall(){ while(nh) gsl_matrix_free(hold[--nh]); }
#define CL(a,b,...) do{ double a_=(a),b_=(b); CHECK(vp_close(a_,b_,T),"%s: got %.12g, definition gives %.12g",__VA_ARGS__,a_,b_); }while(0)
static void same(gsl_vector *v,char *s,const char *w){ char *t=vp_servec(v); CHECK(!strcmp(s,t),"%s changed its input",w); free(t); }
static void dist(int k){ int n=vp_int(1,9); gsl_vector *a=mk(n),*b=mk(n); if(vp_chance(15)) gsl_vector_memcpy(b,a); char *s=vp_servec(a),*t=vp_servec(b); vp_note("%s and %s",s,t); for(int z=0;z<2;z++){ gsl_vector *B=z?NULL:b; double e=0,m=0,d=0,sup=0; double p=vp_int(1,6)/2.; long double l=0; for(int i=0;i<n;i++){ double x=E(a,i)-(z?0:E(b,i)); e+=x*x; m+=fabs(x); if(x) d=1; sup=fmax(sup,fabs(x)); l+=powl(fabs(x),p); }
        CL(apop_vector_distance(a,B),sqrt(e),"default distance"); for(int up=0;up<2;up++){ CL(apop_vector_distance(a,B,up?'E':'e'),sqrt(e),"Euclidean"); CL(apop_vector_distance(a,B,up?'M':'m'),m,"Manhattan"); CL(apop_vector_distance(a,B,up?'D':'d'),d,"discrete"); CL(apop_vector_distance(a,B,up?'S':'s'),sup,"sup"); CL(apop_vector_distance(a,B,up?'L':'l',p),powl(l,1/p),"Lp"); CL(apop_vector_distance(a,B,up?'L':'l'),sqrt(e),"L2"); } CHECK(isnan(apop_vector_distance(a,B,'q')),"unknown metric"); same(a,s,"distance"); same(b,t,"distance"); }
    gsl_vector *c=gsl_vector_calloc(n+1); CHECK(isnan(apop_vector_distance(a,c))&&isnan(apop_vector_distance(c,a)),"sizes differ"); CHECK(isnan(apop_vector_distance(NULL,a)),"NULL"); gsl_vector_free(c); free(s); free(t); rel(a); rel(b); relall(); }
static void norm(int k){ int n=vp_int(2,9); gsl_vector *a=mk(n); char *s=vp_servec(a); char ty="prsm"[k%4]; vp_note("%s type %c",s,ty); double mn=1e99,mx=-1e99,sum=0,v=0; for(int i=0;i<n;i++){ mn=fmin(mn,E(a,i)); mx=fmax(mx,E(a,i)); sum+=E(a,i); } double mu=sum/n; for(int i=0;i<n;i++) v+=(E(a,i)-mu)*(E(a,i)-mu)/(n-1); int skip=(ty=='r'&&mx-mn<1e-9)||(ty=='s'&&v<1e-9)||(ty=='p'&&fabs(sum)<1e-3); gsl_vector *x=gsl_vector_alloc(n),*o=NULL; for(int i=0;i<n;i++) gsl_vector_set(x,i,ty=='p'?E(a,i)/sum:ty=='r'?(E(a,i)-mn)/(mx-mn):ty=='s'?(E(a,i)-mu)/sqrt(v):E(a,i)-mu);
    if(!skip){ if(ty=='p'&&vp_flip()) apop_vector_normalize(a,&o); else apop_vector_normalize(a,&o,ty); same(a,s,"normalize to another vector"); CHECK(o&&o!=a&&o->size==n,"no output"); for(int i=0;i<n;i++) CL(E(o,i),E(x,i),"normalized"); gsl_vector_free(o); apop_vector_normalize(a,.normalization_type=ty); for(int i=0;i<n;i++) CL(E(a,i),E(x,i),"normalized in place"); }
    else if(ty=='p'&&sum==0){ apop_vector_normalize(a,.normalization_type=ty); same(a,s,"normalizing a zero-sum vector"); }
    apop_vector_normalize(NULL); gsl_vector_free(x); free(s); rel(a); relall(); }
static int dcmp(const void*a,const void*b){ double x=*(double*)a,y=*(double*)b; return x<y?-1:x>y; }
static void pct(int k){ int n=vp_chance(10)?101*vp_int(1,2):vp_chance(10)?vp_int(1,3):vp_int(1,40); gsl_vector *a=mk(n); char *s=vp_servec(a); vp_note("%s",s); double *x=malloc(8*n); for(int i=0;i<n;i++) x[i]=E(a,i); qsort(x,n,8,dcmp); for(int r=0;r<4;r++){ double *p=r==3?apop_vector_percentiles(a):apop_vector_percentiles(a,"duad"[r]); for(int i=0;i<101;i++){ int num=i*(n-1), lo=num/100, ex=num%100==0; double w= ex?x[lo]: (r==0||r==3)?x[lo]: r==1?x[lo+1]:(x[lo]+x[lo+1])/2; CL(p[i],w,"percentile"); } CHECK(p[0]==x[0]&&p[100]==x[n-1],"ends"); free(p); } same(a,s,"percentiles"); CHECK(!apop_vector_percentiles(NULL),"NULL"); free(x); free(s); rel(a); relall(); }
static void sums(int k){ int n=vp_int(0,9),m=vp_int(1,6); gsl_vector *a=mk(n); char *s=vp_servec(a); vp_note("%s and matrix %dx%d",s,n,m); long double t=0; for(int i=0;i<n;i++) t+=E(a,i); CL(apop_vector_sum(a),t,"sum"); CL(apop_sum(a),t,"sum"); CHECK(apop_vector_sum(NULL)==0&&apop_matrix_sum(NULL)==0,"sum of NULL"); if(n){ gsl_matrix *q=gsl_matrix_alloc(n+1,m+1); for(int i=0;i<=n;i++) for(int j=0;j<=m;j++) gsl_matrix_set(q,i,j,i<n&&j<m?vp_fin():NAN); gsl_matrix v=gsl_matrix_submatrix(q,0,0,n,m).matrix; t=0; for(int i=0;i<n;i++) for(int j=0;j<m;j++) t+=G(&v,i,j); CL(apop_matrix_sum(&v),t,"matrix sum"); CL(apop_matrix_mean(&v),t/(n*m),"matrix mean"); gsl_matrix_free(q);} same(a,s,"sum"); free(s); rel(a); relall(); }
static void movavg(int k){ int n=vp_int(1,14); size_t bw=vp_chance(5)?0:vp_int(1,18); gsl_vector *a=mk(n); char *s=vp_servec(a); vp_note("%s bandwidth %zu",s,bw); gsl_vector *o=apop_vector_moving_average(a,bw); int h=bw/2; if(!bw){ char *t=vp_servec(o); CHECK(!strcmp(s,t)&&o!=a,"bandwidth zero"); free(t);} else if(n<=2*h) CHECK(!o,"bandwidth wider than the vector"); else { CHECK(o&&o->size==n-2*h,"size"); for(int i=0;i<n-2*h;i++){ double t=0; for(int j=0;j<=2*h;j++) t+=E(a,i+j); CL(E(o,i),t/(2*h+1),"moving average"); } } if(o) gsl_vector_free(o); CHECK(!apop_vector_moving_average(NULL,3),"NULL"); same(a,s,"moving average"); free(s); rel(a); relall(); }
static void preds(int k){ int n=vp_chance(3)?vp_int(100,30000):vp_int(1,8); gsl_vector *a=mk(n); int odd=vp_int(0,9); if(odd<3) gsl_vector_set(a,vp_int(0,n-1),odd==0?NAN:odd==1?INFINITY:-INFINITY); double mx=vp_chance(30)?0:vp_int(1,45); if(vp_chance(30)&&!(odd<3)) mx=fabs(E(a,vp_int(0,n-1)))+.125; char *s=vp_servec(a); vp_note("%.3000s bound %g",s,mx); int ok=1; for(int i=0;i<n;i++) if(!isfinite(E(a,i))||(mx&&fabs(E(a,i))>mx)) ok=0; CHECK(!!(mx?apop_vector_bounded(a,mx):apop_vector_bounded(a))==ok,"bounded: got %d",!ok); CHECK(apop_vector_bounded(NULL)==1,"bounded NULL"); same(a,s,"bounded"); free(s); rel(a); relall();
    gsl_vector *p=gsl_vector_alloc(n); int neg=vp_chance(15); long double t=0,h=0; for(int i=0;i<n;i++){ double x=vp_chance(25)?0:vp_int(1,9)/(vp_flip()?1.:4.); gsl_vector_set(p,i,x); } if(neg&&n>1&&n<100) gsl_vector_set(p,vp_int(0,n-1),-.5); int isneg=0; for(int i=0;i<n;i++){ t+=E(p,i); isneg|=E(p,i)<0; } for(int i=0;i<n;i++) if(E(p,i)>0) h-=E(p,i)/t*logl(E(p,i)/t); if(n>100){ gsl_vector_set(p,0,vp_int(1,100000)); t=h=0; isneg=0; for(int i=0;i<n;i++) t+=E(p,i); for(int i=0;i<n;i++) if(E(p,i)>0) h-=E(p,i)/t*logl(E(p,i)/t);} s=vp_servec(p); vp_note("entropy of %.3000s",s); double g=apop_vector_entropy(p); if(t==0) CHECK(g==0,"entropy of zero weight"); else if(isneg) CHECK(isnan(g),"entropy with a negative element is %g",g); else CL(g,h,"entropy"); same(p,s,"entropy"); CHECK(apop_vector_entropy(NULL)==0,"NULL"); free(s); gsl_vector_free(p);
    gsl_vector *q=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(q,i,vp_int(1,60)/8.); gsl_vector *q1=apop_vector_copy(q),*q2=apop_vector_copy(q); apop_vector_log(q); apop_vector_log10(q1); for(int i=0;i<n;i++){ CL(E(q,i),log(E(q2,i)),"log"); CL(E(q1,i),log10(E(q2,i)),"log10"); } apop_vector_exp(q); for(int i=0;i<n;i++) CL(E(q,i),E(q2,i),"exp"); gsl_vector_free(q); gsl_vector_free(q1); gsl_vector_free(q2); }
int main(int c,char**v){ vp_case cs[]={{"dist",dist,1500},{"norm",norm,2000},{"pct",pct,800},{"sums",sums,800},{"movavg",movavg,1500},{"preds",preds,2000},{0}}; return vp_main(c,v,cs); }

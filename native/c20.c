#include "vp.h"
#define T 1e-8
static gsl_matrix *hold; static gsl_vector vw_;
/* a vector of n numbers: owned, or a strided column view */
static gsl_vector *mk(int n,int strided){ gsl_vector *v; if(strided){ hold=gsl_matrix_alloc(n,4); gsl_matrix_set_all(hold,1e9); vw_=gsl_matrix_column(hold,vp_int(0,3)).vector; v=&vw_; } else v=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(v,i,vp_fin()); return v; }
static void rel(gsl_vector *v){ if(v==&vw_){ gsl_matrix_free(hold); hold=NULL; } else if(v) gsl_vector_free(v); }
#define E(v,i) gsl_vector_get(v,i)
static long double wt(gsl_vector *w,int i){ return w?E(w,i):1; }
static long double W(gsl_vector *w,int n){ long double s=0; for(int i=0;i<n;i++) s+=wt(w,i); return s; }
static long double mean(gsl_vector *v,gsl_vector *w){ long double s=0; for(int i=0;i<v->size;i++) s+=wt(w,i)*E(v,i); return s/W(w,v->size); }
static long double cm(gsl_vector *v,gsl_vector *u,gsl_vector *w,int p){ long double m=mean(v,w),mu=mean(u,w),s=0; for(int i=0;i<v->size;i++){ long double t=wt(w,i)*(E(v,i)-m); for(int q=1;q<p;q++) t*=E(u,i)-mu; s+=t; } return s/W(w,v->size); }
static double len(gsl_vector *w,int n){ long double x=W(w,n); return w&&x<1.1?n:x; }
static gsl_vector *wts(int n,int *kind){ *kind=vp_int(0,5); if(*kind==0) return NULL; gsl_vector *w=gsl_vector_alloc(n); double s=0; for(int i=0;i<n;i++){ double x=*kind==1?1:*kind==2?1./n:*kind==3?vp_int(0,4):*kind==4?vp_int(1,20)/4.+.25:vp_int(1,9); gsl_vector_set(w,i,x); s+=x; } if(*kind==3&&s<2) gsl_vector_set(w,0,3); if(*kind==5) gsl_vector_scale(w,1/s); if(*kind==4&&s<1.2) gsl_vector_set(w,0,5); return w; }
#define CL(a,b,...) do{ double a_=(a),b_=(b); CHECK(vp_close(a_,b_,T),"%s: got %.12g, definition gives %.12g",__VA_ARGS__,a_,b_); }while(0)
static double scale(gsl_vector *v,int p){ double m=1; for(int i=0;i<v->size;i++) m=fmax(m,fabs(E(v,i))); return pow(m,p); }
#define CLs(a,b,sc,what) do{ double a_=(a),b_=(b); CHECK((isnan(a_)&&isnan(b_))||fabs(a_-b_)<=T*(sc),"%s: got %.12g, definition gives %.12g",what,a_,b_); }while(0)
static void moments(int k){ int n=vp_int(2,12),kd; gsl_vector *v=mk(n,vp_chance(40)), *u=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(u,i,vp_fin()); gsl_vector *w=wts(n,&kd); char *s=vp_servec(v),*su=vp_servec(u),*sw=vp_servec(w); vp_note("x %s y %s weights %s",s,su,sw);
    double L=len(w,n), c=L/(L-1); CLs(apop_vector_mean(v,w),mean(v,w),scale(v,1),"mean"); CLs(apop_vector_var(v,w),cm(v,v,w,2)*c,scale(v,2)*c,"variance"); CLs(apop_vector_cov(v,u,w),cm(v,u,w,2)*c,scale(v,1)*scale(u,1)*c,"covariance"); CLs(apop_vector_cov(v,v,w),apop_vector_var(v,w),scale(v,2)*c,"cov(x,x)=var(x)"); CLs(apop_vector_cov(u,v,w),apop_vector_cov(v,u,w),scale(v,1)*scale(u,1)*c,"symmetry");
    CLs(apop_vector_skew_pop(v,w),cm(v,v,w,3),scale(v,3),"third moment"); CLs(apop_vector_kurtosis_pop(v,w),cm(v,v,w,4),scale(v,4),"fourth moment");
    double va=apop_vector_var(v,w),vb=apop_vector_var(u,w); if(va>1e-6&&vb>1e-6){ double r=apop_vector_correlation(v,u,w); CL(r,apop_vector_cov(v,u,w)/sqrt(va*vb),"correlation"); CHECK(fabs(r)<=1+1e-9,"correlation outside [-1,1]"); CL(apop_vector_correlation(v,v,w),1,"correlation with itself"); }
    if(!w){ CLs(apop_vector_var_m(v,mean(v,0)),cm(v,v,0,2)*c,scale(v,2)*c,"variance given the mean"); if(n>2) CLs(apop_vector_skew(v),cm(v,v,0,3)*n*n/((n-1.)*(n-2)),scale(v,3)*9,"sample skew"); CL(apop_vector_correlation(v,v),1.,"self") ; }
    if(kd==3){ int t=0; for(int i=0;i<n;i++) t+=E(w,i); gsl_vector *rx=gsl_vector_alloc(t),*ry=gsl_vector_alloc(t); int q=0; for(int i=0;i<n;i++) for(int j=0;j<E(w,i);j++){ gsl_vector_set(rx,q,E(v,i)); gsl_vector_set(ry,q++,E(u,i)); } CLs(apop_vector_mean(v,w),apop_vector_mean(rx),scale(v,1),"mean of repeated observations"); CLs(apop_vector_var(v,w),apop_vector_var(rx),scale(v,2)*c,"variance of repeated observations"); CLs(apop_vector_cov(v,u,w),apop_vector_cov(rx,ry),scale(v,1)*scale(u,1)*c,"covariance of repeated observations"); CLs(apop_vector_skew_pop(v,w),apop_vector_skew_pop(rx),scale(v,3),"skew of repeated observations"); CLs(apop_vector_kurtosis_pop(v,w),apop_vector_kurtosis_pop(rx),scale(v,4),"kurtosis of repeated observations"); gsl_vector_free(rx); gsl_vector_free(ry); }
    if(kd==1||kd==2){ CLs(apop_vector_mean(v,w),apop_vector_mean(v),scale(v,1),"mean, equal weights"); CLs(apop_vector_var(v,w),apop_vector_var(v),scale(v,2)*c,"variance, equal weights"); CLs(apop_vector_cov(v,u,w),apop_vector_cov(v,u),scale(v,1)*scale(u,1)*c,"covariance, equal weights"); CLs(apop_vector_skew_pop(v,w),apop_vector_skew_pop(v),scale(v,3),"skew, equal weights"); CLs(apop_vector_kurtosis_pop(v,w),apop_vector_kurtosis_pop(v),scale(v,4),"kurtosis, equal weights"); }
    char *s2=vp_servec(v),*w2=vp_servec(w); CHECK(!strcmp(s,s2)&&!strcmp(sw,w2),"input changed"); free(s2); free(w2);
    free(s);free(su);free(sw); rel(v); rel(u); if(w) gsl_vector_free(w); }
static void bad(int k){ int n=vp_int(1,5); vp_note("bad arguments %d",n); gsl_vector *v=gsl_vector_calloc(n),*w=gsl_vector_calloc(n+1); gsl_vector_set_all(w,1); CHECK(isnan(apop_vector_mean(NULL))&&isnan(apop_vector_var(NULL))&&isnan(apop_vector_skew_pop(NULL))&&isnan(apop_vector_kurtosis_pop(NULL))&&isnan(apop_vector_cov(NULL,v))&&isnan(apop_vector_cov(v,NULL)),"NULL"); CHECK(isnan(apop_vector_mean(v,w))&&isnan(apop_vector_var(v,w))&&isnan(apop_vector_skew_pop(v,w))&&isnan(apop_vector_kurtosis_pop(v,w))&&isnan(apop_vector_cov(v,v,w))&&isnan(apop_vector_cov(v,w)),"weights of another size"); CHECK(isnan(apop_vector_mean(w,v))&&isnan(apop_vector_var(w,v))&&isnan(apop_vector_cov(w,w,v)),"weights of another size"); gsl_vector_free(v); gsl_vector_free(w); 
    CHECK(apop_matrix_mean(NULL)==0,"matrix mean of NULL"); double a,b; apop_matrix_mean_and_var(NULL,&a,&b); CHECK(a==0&&isnan(b),"matrix mean and var of NULL"); CHECK(!apop_data_covariance(NULL)&&!apop_data_correlation(NULL)&&!apop_data_summarize(NULL),"NULL data"); apop_data *d=apop_data_alloc(3); CHECK(!apop_data_covariance(d)&&!apop_data_correlation(d)&&!apop_data_summarize(d),"no matrix"); apop_data_free(d); }
static int dcmp(const void*a,const void*b){ double x=*(double*)a,y=*(double*)b; return x<y?-1:x>y; }
static void tables(int k){ int n=vp_int(2,9),m=vp_int(1,5),kd; apop_data *d=vp_data(G_M|G_FIN|(vp_flip()?G_CN:0)|(vp_flip()?G_V:0)|(vp_flip()?G_RN:0)|(vp_flip()?G_TITLE:0),n,m,0); d->weights=wts(n,&kd); if(vp_chance(20)&&m>1) for(int i=0;i<n;i++) gsl_matrix_set(d->matrix,i,1,gsl_matrix_get(d->matrix,i,0)*2+1); char *s=vp_ser(d); vp_note("%s",s); gsl_vector *w=d->weights; double L=len(w,n),c=L/(L-1);
    apop_data *cv=apop_data_covariance(d),*co=apop_data_correlation(d),*su=apop_data_summarize(d); CHECK(cv->matrix->size1==m&&cv->matrix->size2==m&&co->matrix->size1==m&&co->matrix->size2==m&&su->matrix->size1==m&&su->matrix->size2==6,"sizes"); CHECK(cv->names->colct==d->names->colct&&cv->names->rowct==d->names->colct&&su->names->rowct==d->names->colct,"names"); for(int i=0;i<d->names->colct;i++) CHECK(!strcmp(cv->names->row[i],d->names->col[i])&&!strcmp(cv->names->col[i],d->names->col[i])&&!strcmp(co->names->row[i],d->names->col[i])&&!strcmp(su->names->row[i],d->names->col[i]),"name %d",i);
    for(int i=0;i<m;i++){ gsl_vector a=gsl_matrix_column(d->matrix,i).vector; double va=cm(&a,&a,w,2)*c; for(int j=0;j<m;j++){ gsl_vector b=gsl_matrix_column(d->matrix,j).vector; double sc=scale(&a,1)*scale(&b,1)*c, vb=cm(&b,&b,w,2)*c; CLs(gsl_matrix_get(cv->matrix,i,j),cm(&a,&b,w,2)*c,sc,"covariance matrix"); if(va>1e-4&&vb>1e-4) CL(gsl_matrix_get(co->matrix,i,j),cm(&a,&b,w,2)*c/sqrt(va*vb),"correlation matrix"); }
        double x[20]; for(int q=0;q<n;q++) x[q]=E(&a,q); qsort(x,n,8,dcmp); CLs(gsl_matrix_get(su->matrix,i,0),mean(&a,w),scale(&a,1),"summary mean"); CLs(gsl_matrix_get(su->matrix,i,2),va,scale(&a,2)*c,"summary variance"); if(va>1e-4) CL(gsl_matrix_get(su->matrix,i,1),sqrt(va),"summary std dev"); CHECK(gsl_matrix_get(su->matrix,i,3)==x[0]&&gsl_matrix_get(su->matrix,i,5)==x[n-1],"summary min and max"); CHECK(gsl_matrix_get(su->matrix,i,4)==x[(int)(50*(n-1)/100.0)],"summary median"); }
    long double t=0,t2=0; for(int i=0;i<n;i++) for(int j=0;j<m;j++) t+=gsl_matrix_get(d->matrix,i,j); long double mu=t/(n*m); for(int i=0;i<n;i++) for(int j=0;j<m;j++) t2+=powl(gsl_matrix_get(d->matrix,i,j)-mu,2); double a,b; apop_matrix_mean_and_var(d->matrix,&a,&b); CL(a,mu,"matrix mean"); CLs(b,t2/(n*m),1700,"matrix variance"); CL(apop_matrix_mean(d->matrix),mu,"matrix mean"); CL(apop_matrix_sum(d->matrix),t,"matrix sum");
    char *s2=vp_ser(d); CHECK(!strcmp(s,s2),"input changed"); free(s); free(s2); apop_data_free(cv); apop_data_free(co); apop_data_free(su); apop_data_free(d); }
/* the sample estimators are unbiased: their average over every sample of n draws from a small population is the population's moment */
static int only4;
static void unbiased(int k){ int n=k%3+3, p=k%2+2; double x[3]; for(int i=0;i<p;i++) x[i]=vp_fin(); gsl_vector *pop=gsl_vector_alloc(p); for(int i=0;i<p;i++) gsl_vector_set(pop,i,x[i]); char *s=vp_servec(pop); vp_note("every sample of %d from %s",n,s); free(s); int tot=pow(p,n)+.5; gsl_vector *v=gsl_vector_alloc(n); long double a=0,b=0,c=0,e=0; for(int q=0;q<tot;q++){ int r=q; for(int i=0;i<n;i++){ gsl_vector_set(v,i,x[r%p]); r/=p; } a+=apop_vector_mean(v); b+=apop_vector_var(v); c+=apop_vector_skew(v); e+=apop_vector_kurtosis(v); } CLs(a/tot,mean(pop,0),scale(pop,1),"average sample mean"); CLs(b/tot,cm(pop,pop,0,2),scale(pop,2),"average sample variance"); CLs(c/tot,cm(pop,pop,0,3),scale(pop,3),"average sample skew"); if(only4) CLs(e/tot,cm(pop,pop,0,4),scale(pop,4),"average sample kurtosis"); gsl_vector_free(v); gsl_vector_free(pop); }
static void kurtosis(int k){ only4=1; unbiased(k); only4=0; }
int main(int c,char**v){ vp_case cs[]={{"moments",moments,4000},{"bad",bad,20},{"tables",tables,600},{"unbiased",unbiased,24},{"kurtosis",kurtosis,-24},{0}}; return vp_main(c,v,cs); }

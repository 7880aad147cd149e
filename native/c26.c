#include "vp.h"
static long double mu(double *x,int n,int p){ long double m=0,s=0; for(int i=0;i<n;i++) m+=x[i]; m/=n; for(int i=0;i<n;i++){ long double t=1; for(int q=0;q<p;q++) t*=x[i]-m; s+=t; } return s/n; }
static gsl_vector *vec(double *x,int n){ gsl_vector *v=gsl_vector_alloc(n); memcpy(v->data,x,n*sizeof(double)); return v; }
#define NEAR(a,b,sc,what) do{ double a_=(a),b_=(b); CHECK(fabs(a_-b_)<=1e-8*(sc),"%s: SQL gives %.12g, in memory %.12g",what,a_,b_); }while(0)
static int checkkurt;
/* a table of (group, value) rows in random order with nulls between; every aggregate of every group */
static void agg(int k){
    int ng=vp_int(1,4), n[4]; double x[4][30]; char *q; vp_sb b={0}; int rows[160][2],nr=0;
    for(int g=0;g<ng;g++){ n[g]=vp_int(checkkurt?4:2,20); double off=vp_int(-20,20); for(int i=0;i<n[g];i++){ x[g][i]=off+vp_int(-40,40)/4.; rows[nr][0]=g; rows[nr++][1]=i; } int nu=vp_chance(50)?0:vp_int(1,5); for(int i=0;i<nu;i++){ rows[nr][0]=g; rows[nr++][1]=-1; } }
    for(int i=nr-1;i>0;i--){ int j=vp_int(0,i),t0=rows[i][0],t1=rows[i][1]; rows[i][0]=rows[j][0]; rows[i][1]=rows[j][1]; rows[j][0]=t0; rows[j][1]=t1; }
    apop_query("drop table if exists t; create table t(g integer, x)"); apop_query("begin");
    for(int i=0;i<nr;i++){ char v[60]; if(rows[i][1]<0) strcpy(v,"null"); else sprintf(v,"%.17g",x[rows[i][0]][rows[i][1]]); sb(&b,"(%d,%s)",rows[i][0],v); apop_query("insert into t values(%d,%s)",rows[i][0],v); } apop_query("commit");
    vp_note("%.3900s",b.s); free(b.s);
    apop_data *o=apop_query_to_data("select count(x),var(x),var_samp(x),stddev(x),stddev_samp(x),var_pop(x),variance(x),std(x),stddev_pop(x),skew(x),kurt(x),kurtosis(x),avg(x) from t group by g order by g");
    CHECK(o&&o->matrix&&o->matrix->size1==ng,"groups");
    for(int g=0;g<ng;g++){ double N=n[g]; gsl_vector *v=vec(x[g],n[g]); double m=1; for(int i=0;i<n[g];i++) m=fmax(m,fabs(x[g][i])); double *r=o->matrix->data+g*o->matrix->tda;
        CHECK(r[0]==N,"count"); double va=apop_vector_var(v), vp=va*(N-1)/N; NEAR(r[1],va,m*m,"var"); NEAR(r[2],va,m*m,"var_samp"); NEAR(r[5],vp,m*m,"var_pop"); NEAR(r[6],vp,m*m,"variance");
        if(va>1e-3){ NEAR(r[3],sqrt(va),m*m,"stddev"); NEAR(r[4],sqrt(va),m*m,"stddev_samp"); NEAR(r[7],sqrt(vp),m*m,"std"); NEAR(r[8],sqrt(vp),m*m,"stddev_pop"); }
        NEAR(r[12],apop_vector_mean(v),m,"avg"); if(N>2) NEAR(r[9],apop_vector_skew(v),m*m*m*20,"skew"); CHECK(r[10]==r[11]||(isnan(r[10])&&isnan(r[11])),"kurt and kurtosis differ");
        if(checkkurt) NEAR(r[10],apop_vector_kurtosis(v),m*m*m*m,"kurt");
        else { long double c0=N*N/(N*N*N*(N*N-3*N+3)); NEAR(r[10],c0*((N*(N-1)*(N-1)+6*N-9)*mu(x[g],n[g],4)+N*(6*N-9)*mu(x[g],n[g],2)*mu(x[g],n[g],2)),m*m*m*m,"kurt"); }
        gsl_vector_free(v); }
    apop_data_free(o);
    /* the whole table at once, through the other aggregates in one expression */
    double all[120]; int na=0; for(int g=0;g<ng;g++) for(int i=0;i<n[g];i++) all[na++]=x[g][i]; gsl_vector *v=vec(all,na); double m=1; for(int i=0;i<na;i++) m=fmax(m,fabs(all[i])); NEAR(apop_query_to_float("select var(x) from t"),apop_vector_var(v),m*m,"var of all"); if(na>2) NEAR(apop_query_to_float("select var(x)+10*skew(x) from t where x is not null"),apop_vector_var(v)+10*apop_vector_skew(v),m*m*m*200,"two aggregates"); gsl_vector_free(v);
}
static void kurt(int k){ checkkurt=1; agg(k); checkkurt=0; }
static void small(int k){ vp_note("no rows, only nulls, one row"); apop_query("drop table if exists t; create table t(x)"); for(int s=0;s<3;s++){ if(s) apop_query(s==1?"insert into t values(null)":"insert into t values(3)"); const char *f[]={"var","stddev","var_pop","std","skew","kurt"}; for(int i=0;i<6;i++){ apop_data *d=apop_query_to_text("select typeof(%s(x)) from t",f[i]); CHECK(d&&!strcmp(**d->text,s<2?"null":"real"),"%s of %s is %s",f[i],s<1?"no rows":s<2?"nulls":"one row",**d->text); apop_data_free(d); if(s==2) CHECK(apop_query_to_float("select %s(x) from t",f[i])==0,"%s of one row",f[i]); } } }
static void scalar(int k){ double x=vp_int(-400,400)/8., y=vp_int(-30,30)/10.; vp_note("f(%g) pow(%g,%g)",x,x,y);
#define F(nm,fn) do{ double a=apop_query_to_float("select " nm "(%.17g)",x),b=fn(x); CHECK((isnan(a)&&(isnan(b)||isinf(b)))||vp_same(a,b)||vp_close(a,b,1e-12),nm "(%g): SQL %.15g, C %.15g",x,a,b); }while(0)
    F("sqrt",sqrt); F("exp",exp); F("log",log); F("ln",log); F("log10",log10); F("sin",sin); F("cos",cos); F("tan",tan); F("atan",atan); x/=64; F("asin",asin); F("acos",acos);
    x=fabs(x)+.5; double a=apop_query_to_float("select pow(%.17g,%.17g)",x,y); CHECK(vp_close(a,pow(x,y),1e-12),"pow: %.15g, %.15g",a,pow(x,y)); a=apop_query_to_float("select pow(%.17g,3)",-x); CHECK(vp_close(a,-x*x*x,1e-12),"pow negative"); a=apop_query_to_float("select ran()"); CHECK(a>=0&&a<1,"ran"); }
static void start(void){ static int d; if(!d++) apop_db_open(NULL); }
static void agg0(int k){ start(); agg(k); } static void small0(int k){ start(); small(k); } static void scalar0(int k){ start(); scalar(k); } static void kurt0(int k){ start(); kurt(k); }
int main(int c,char**v){ vp_case cs[]={{"small",small0,1},{"agg",agg0,500},{"scalar",scalar0,300},{"kurt",kurt0,-200},{0}}; return vp_main(c,v,cs); }

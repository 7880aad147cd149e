#include "vp.h"
/* own oracle: the numbers of one page in documented order */
static int info(apop_data const *d){ char *t=d->names?d->names->title:NULL; return t && strlen(t)>=2 && t[0]=='<' && t[strlen(t)-1]=='>'; }
static int flat1(apop_data const *d,double *o){ int n=0; if(d->vector) for(size_t i=0;i<d->vector->size;i++) o[n++]=gsl_vector_get(d->vector,i); if(d->matrix) for(size_t i=0;i<d->matrix->size1;i++) for(size_t j=0;j<d->matrix->size2;j++) o[n++]=gsl_matrix_get(d->matrix,i,j); if(d->weights) for(size_t i=0;i<d->weights->size;i++) o[n++]=gsl_vector_get(d->weights,i); return n; }
static int flat(apop_data const *d,double *o,int more,int useinfo){ int n=0,first=1; for(;d;d=d->more){ if(first||useinfo||!info(d)) n+=flat1(d,o+n); first=0; if(!more) break; } return n; }
static apop_data *page(int empty_ok){ for(;;){ int f=vp_flags(G_V|G_M|G_W|G_T|G_RN|G_CN); apop_data *d=vp_data(f,vp_int(1,5),vp_int(1,4),vp_int(1,2)); if(vp_chance(30)&&d->vector){ gsl_vector_free(d->vector); d->vector=gsl_vector_alloc(vp_int(1,7)); for(size_t i=0;i<d->vector->size;i++) gsl_vector_set(d->vector,i,vp_num()); } if(empty_ok||d->vector||d->matrix||d->weights) return d; apop_data_free(d);} }
static const char *tt[]={"<Covariance>","<Info>","plain","<half","half>","a <b> c","","<>"};
static apop_data *mk(int np){ apop_data *d=page(0),*e=d; if(vp_flip()) apop_name_add(d->names,vp_flip()?"first":"not <info>",'h'); for(int i=1;i<np;i++){ e->more=page(i<np-1); e=e->more; if(vp_chance(75)) apop_name_add(e->names,tt[vp_int(0,7)],'h'); } return d; }
static apop_data *blank(apop_data *d){ apop_data *c=apop_data_copy(d); for(apop_data *p=c;p;p=p->more){ if(p->vector) gsl_vector_set_all(p->vector,-12345.5); if(p->matrix) gsl_matrix_set_all(p->matrix,-12345.5); if(p->weights) gsl_vector_set_all(p->weights,-12345.5);} return c; }
static void roundtrip(int k){ apop_data *d=mk(vp_int(1,vp_flip()?1:6)); char *s=vp_ser(d); int more=vp_chance(80),ui=vp_flip(); vp_note("more=%d info=%d %.3000s",more,ui,s); static double w[20000]; int n=flat(d,w,more,ui);
    gsl_vector *v; int how=vp_int(0,2); gsl_vector *big=NULL; gsl_vector_view vv;
    if(how==0){ v = ui ? (more? apop_data_pack(d,.use_info_pages='y') : apop_data_pack(d,.more_pages='n',.use_info_pages='y')) : (more? apop_data_pack(d) : apop_data_pack(d,.more_pages='n')); }
    else { int st= how==1?1:3; big=gsl_vector_alloc(n*st+4); gsl_vector_set_all(big,-7.25); vv=gsl_vector_subvector_with_stride(big,2,st,n); v=apop_data_pack(d,&vv.vector,more?'y':'n',ui?'y':'n'); CHECK(v==&vv.vector,"the given output is not returned"); }
    CHECK(v,"nothing packed"); CHECK((int)v->size==n,"packed %zu elements, expected %d",v->size,n); for(int i=0;i<n;i++) CHECK(vp_same(gsl_vector_get(v,i),w[i]),"packed element %d is %g, expected %g",i,gsl_vector_get(v,i),w[i]);
    if(big) for(size_t i=0;i<big->size;i++){ int st=how==1?1:3; int in=i>=2&&(i-2)%st==0&&(int)((i-2)/st)<n; if(!in) CHECK(big->data[i]==-7.25,"packing wrote outside the output vector at %zu",i); }
    char *s2=vp_ser(d); CHECK(!strcmp(s,s2),"packing changed its input"); free(s2);
    gsl_vector *vc=gsl_vector_alloc(v->size); gsl_vector_memcpy(vc,v); double *keep=malloc(sizeof(double)*(n+1)); for(int i=0;i<n;i++) keep[i]=w[i];
    apop_data *o=blank(d); if(!more && o->more && 0){} if(ui) apop_data_unpack(v,o,.use_info_pages='y'); else apop_data_unpack(v,o);
    int q=0,first=1; for(apop_data *a=d,*b=o;a;a=a->more,b=b->more){ static double x[3000],y[3000]; int na=flat1(a,x),nb=flat1(b,y); CHECK(na==nb,"shape changed"); int on=(first||more)&&(first||ui||!info(a)); for(int i=0;i<na;i++) CHECK(vp_same(y[i],on?x[i]:-12345.5),"page element %d after unpacking is %g, expected %g",i,y[i],on?x[i]:-12345.5); first=0;
        for(int i=0;i<a->names->rowct;i++) CHECK(!strcmp(a->names->row[i],b->names->row[i]),"names changed"); for(size_t i=0;i<a->textsize[0];i++) for(size_t j=0;j<a->textsize[1];j++) CHECK(!strcmp(a->text[i][j],b->text[i][j]),"text changed"); }
    for(int i=0;i<n;i++) CHECK(vp_same(gsl_vector_get(v,i),keep[i]),"unpacking changed its source"); 
    if(!big) gsl_vector_free(v); else gsl_vector_free(big); gsl_vector_free(vc); free(keep); apop_data_free(o); apop_data_free(d); free(s); (void)q; }
static void mismatch(int k){ apop_data *d=mk(vp_int(1,3)); static double w[5000]; int ui=vp_flip(); int n=flat(d,w,1,ui); int m=n; while(m==n||m<1) m=n+vp_int(-3,3); vp_note("mismatch %d for %d pages info %d",m,n,ui); gsl_vector *v=gsl_vector_alloc(m); gsl_vector_set_all(v,3.5); gsl_vector *r= ui? apop_data_pack(d,v,.use_info_pages='y') : apop_data_pack(d,v); CHECK(!r,"a wrong-sized output vector was accepted"); for(int i=0;i<m;i++) CHECK(v->data[i]==3.5,"it was written to"); gsl_vector_free(v); apop_data_free(d); CHECK(!apop_data_pack(NULL),"packing NULL"); apop_data *e=apop_data_alloc(); CHECK(!apop_data_pack(e),"packing an empty set"); apop_data_free(e); }
static void views(int k){ apop_data *d=vp_data(G_V|G_M|G_W,vp_int(1,6),vp_int(1,5),0); int r=vp_int(0,d->matrix->size1-1); vp_note("row %d of %zux%zu",r,d->matrix->size1,d->matrix->size2); apop_data *row=Apop_r(d,r); gsl_vector *v=apop_data_pack(row); CHECK(v->size==2+d->matrix->size2,"size"); CHECK(vp_same(v->data[0],d->vector->data[r])&&v->data[v->size-1]==d->weights->data[r],"ends"); for(size_t j=0;j<d->matrix->size2;j++) CHECK(vp_same(v->data[1+j],gsl_matrix_get(d->matrix,r,j)),"middle"); int c=vp_int(0,d->matrix->size2-1); apop_data *col=Apop_c(d,c); gsl_vector *cv=apop_data_pack(col); CHECK(cv->size==2*d->matrix->size1||cv->size==3*d->matrix->size1,"column size"); 
    apop_data *e=apop_data_copy(d); int to=vp_int(0,d->matrix->size1-1); apop_data_unpack(v,Apop_r(e,to)); for(size_t i=0;i<d->matrix->size1;i++) for(int j=-1;j<(int)d->matrix->size2;j++) CHECK(vp_same(apop_data_get(e,i,j),apop_data_get(d,(int)i==to?r:i,j)),"unpacked into a row view: %zu,%d",i,j); gsl_vector_free(v); gsl_vector_free(cv); apop_data_free(d); apop_data_free(e); }
static void fill(int k){ int f=vp_flags(G_V|G_M|G_W|G_RN|G_CN|G_T); apop_data *d=vp_data(f,vp_int(1,6),vp_int(1,5),2); char *s=vp_ser(d); int h=d->matrix?d->matrix->size1:d->vector?d->vector->size:0, c=d->matrix?d->matrix->size2:0, st=d->vector?-1:0; int n=h*(c-st); double *x=malloc(sizeof(double)*(n+3)); for(int i=0;i<n;i++) x[i]=vp_num(); vp_note("fill %d cells of %.2000s",n,s); apop_data *r=apop_data_fill_base(d,x); CHECK(r==d,"returned another set"); int z=0; for(int i=0;i<h;i++) for(int j=st;j<c;j++) CHECK(vp_same(apop_data_get(d,i,j),x[z++]),"element %d,%d is %g, expected %g",i,j,apop_data_get(d,i,j),x[z-1]);
    if(d->vector) gsl_vector_free(d->vector); if(d->matrix) gsl_matrix_free(d->matrix); d->vector=NULL; d->matrix=NULL; CHECK(strstr(s,"w=NULL")?!d->weights:!!d->weights,"weights"); 
    int m=vp_int(1,12),sd=vp_int(1,3); gsl_vector *b=gsl_vector_alloc(m*sd+1); gsl_vector_set_all(b,9.5); gsl_vector_view vv=gsl_vector_subvector_with_stride(b,1,sd,m); double y[12]; for(int i=0;i<m;i++) y[i]=vp_num(); CHECK(apop_vector_fill_base(&vv.vector,y)==&vv.vector,"vector fill return"); for(size_t i=0;i<b->size;i++) if(i>=1&&(i-1)%sd==0&&(int)((i-1)/sd)<m) CHECK(vp_same(b->data[i],y[(i-1)/sd]),"vector fill %zu",i); else CHECK(b->data[i]==9.5,"vector fill wrote outside"); gsl_vector_free(b);
    CHECK(!apop_data_fill_base(NULL,y)&&!apop_vector_fill_base(NULL,y),"NULL"); apop_data_free(d); free(s); free(x); }
static void macros(int k){ vp_note("macros"); apop_data *d=apop_data_falloc((2,2,3),1,2,3,4,5,6,7,8); int z=1; for(int i=0;i<2;i++) for(int j=-1;j<3;j++) CHECK(apop_data_get(d,i,j)==z++,"falloc"); apop_data *e=apop_data_fill(apop_data_alloc(3),9,8,7); CHECK(e->vector->data[2]==7,"fill"); gsl_vector *v=apop_vector_fill(gsl_vector_alloc(3),1,2,3); CHECK(v->data[1]==2,"vector fill"); CHECK(!apop_data_pack(NULL,v),"null"); }
/* the first page is always packed, even when its own title looks like an info page */
static void infofirst(int k){ int np=vp_int(1,3); apop_data *d=mk(np); apop_name_free(d->names); d->names=apop_name_alloc(); apop_name_add(d->names,"<Info>",'h'); char *s=vp_ser(d); vp_note("%.3000s",s); static double w[5000]; int n=flat(d,w,1,0); gsl_vector *v=apop_data_pack(d); CHECK(v && (int)v->size==n,"packed %d elements, expected %d",v?(int)v->size:-1,n); for(int i=0;i<n;i++) CHECK(vp_same(v->data[i],w[i]),"element %d",i); apop_data *o=blank(d); apop_data_unpack(v,o); static double y[5000]; CHECK(flat(o,y,1,0)==n,"shape"); for(int i=0;i<n;i++) CHECK(vp_same(y[i],w[i]),"unpacked element %d",i); gsl_vector_free(v); apop_data_free(d); apop_data_free(o); free(s); }
int main(int c,char**v){ vp_case cs[]={{"macros",macros,1},{"fill",fill,800},{"roundtrip",roundtrip,1500},{"mismatch",mismatch,300},{"views",views,300},{"infofirst",infofirst,100},{0}}; return vp_main(c,v,cs); }

#include "vp.h"
/* every style of mapping against a plain loop; each function also counts its calls per item */
static int nc;
#define HIT __atomic_add_fetch(&nc,1,__ATOMIC_SEQ_CST) /* the library maps in parallel */
static int par=7; static double D(double x){HIT;return 3*x+1;} static double DP(double x,void*p){HIT;return 3*x+*(int*)p;} static double DI(double x,int i){HIT;return 3*x+100*i;} static double DPI(double x,void*p,int i){HIT;return 3*x+100*i+*(int*)p;}
static double vs(gsl_vector *v){ double s=0; for(int i=0;i<(int)v->size;i++) s+=(i+1)*gsl_vector_get(v,i); return s+0.5*v->size; }
static double V(gsl_vector*v){HIT;return vs(v);} static double VP(gsl_vector*v,void*p){HIT;return vs(v)+*(int*)p;} static double VI(gsl_vector*v,int i){HIT;return vs(v)+1000*i;} static double VPI(gsl_vector*v,void*p,int i){HIT;return vs(v)+1000*i+*(int*)p;}
static double rs(apop_data*d){ double s=0; if(d->vector) s+=gsl_vector_get(d->vector,0); if(d->weights) s+=1e4*gsl_vector_get(d->weights,0); if(d->matrix) for(int j=0;j<(int)d->matrix->size2;j++) s+=(j+2)*gsl_matrix_get(d->matrix,0,j); if(d->textsize[0]) for(int j=0;j<(int)d->textsize[1];j++) s+=1e5*strlen(d->text[0][j]); return s; }
static double Rr(apop_data*d){HIT;return rs(d);} static double RP(apop_data*d,void*p){HIT;return rs(d)+*(int*)p;} static double RI(apop_data*d,int i){HIT;return rs(d)+1e6*i;} static double RPI(apop_data*d,void*p,int i){HIT;return rs(d)+1e6*i+*(int*)p;}
static apop_data *gen(int fl,int *r,int *c){ *r=vp_int(1,7); *c=vp_int(1,5); apop_data *d=vp_data(fl,*r,*c,vp_int(1,2)); if(d->vector) for(int i=0;i<*r;i++) gsl_vector_set(d->vector,i,vp_fin()); if(d->matrix) for(int i=0;i<*r;i++) for(int j=0;j<*c;j++) gsl_matrix_set(d->matrix,i,j,vp_fin()); if(d->weights) for(int i=0;i<*r;i++) gsl_vector_set(d->weights,i,vp_int(1,9)); return d; }
static double ed(int k,double x,int i){ return 3*x+(k==0?1:0)+(k&2?100*i:0)+(k&1?par:0); }
/* scalar functions: kind 0 d, 1 dp, 2 di, 3 dpi */
static apop_data *mapd(apop_data *d,int k,int ip,char part){ switch(k){case 0:return apop_map(d,.fn_d=D,.inplace=ip,.part=part);case 1:return apop_map(d,.fn_dp=DP,.param=&par,.inplace=ip,.part=part);case 2:return apop_map(d,.fn_di=DI,.inplace=ip,.part=part);default:return apop_map(d,.fn_dpi=DPI,.param=&par,.inplace=ip,.part=part);} }
static void scalars(int q){ int r,c; apop_data *d=gen(vp_flags(G_V|G_M|G_W|G_RN|G_CN|G_VN|G_T),&r,&c); int k=vp_int(0,3); char part="avm"[vp_int(0,2)]; int ip="nyv"[vp_int(0,2)]; if(part=='m'&&!d->matrix) part='a'; if(part=='v'&&!d->vector) part='a'; char *s0=vp_ser(d); vp_note("number function %d part %c inplace %c of %s",k,part,ip,s0); apop_data *o0=apop_data_copy(d);
    nc=0; apop_data *o=mapd(d,k,ip,part); int dv=d->vector&&part!='m', dm=d->matrix&&part!='v'; CHECK(nc==(dv?r:0)+(dm?r*c:0),"%d calls for %d numbers",nc,(dv?r:0)+(dm?r*c:0));
    if(ip=='v'){ char *s1=vp_ser(d); CHECK(!o&&!strcmp(s0,s1),"input changed or output given"); free(s1); }
    else { CHECK(o,"no output"); if(ip=='y') CHECK(o==d,"not in place"); else { char *s1=vp_ser(d); CHECK(!strcmp(s0,s1),"input changed"); free(s1); }
        if(dv){ CHECK(o->vector&&(int)o->vector->size==r,"vector size"); for(int i=0;i<r;i++) CHECK(gsl_vector_get(o->vector,i)==ed(k,gsl_vector_get(o0->vector,i),i),"vector element %d is %g",i,gsl_vector_get(o->vector,i)); } else if(ip=='y'&&d->vector) for(int i=0;i<r;i++) CHECK(gsl_vector_get(o->vector,i)==gsl_vector_get(o0->vector,i),"vector element %d changed",i);
        if(dm){ CHECK(o->matrix&&(int)o->matrix->size1==r&&(int)o->matrix->size2==c,"matrix size"); int byrow=r<=c; for(int i=0;i<r;i++) for(int j=0;j<c;j++) CHECK(gsl_matrix_get(o->matrix,i,j)==ed(k,gsl_matrix_get(o0->matrix,i,j),byrow?j:i),"matrix element %d,%d is %g",i,j,gsl_matrix_get(o->matrix,i,j)); } else if(ip=='y'&&d->matrix) for(int i=0;i<r;i++) for(int j=0;j<c;j++) CHECK(gsl_matrix_get(o->matrix,i,j)==gsl_matrix_get(o0->matrix,i,j),"matrix element %d,%d changed",i,j); }
    if(ip!='y'){ nc=0; double s=k==0?apop_map_sum(d,.fn_d=D,.part=part):k==1?apop_map_sum(d,.fn_dp=DP,.param=&par,.part=part):k==2?apop_map_sum(d,.fn_di=DI,.part=part):apop_map_sum(d,.fn_dpi=DPI,.param=&par,.part=part), e=0; if(dv) for(int i=0;i<r;i++) e+=ed(k,gsl_vector_get(d->vector,i),i); if(dm) for(int i=0;i<r;i++) for(int j=0;j<c;j++) e+=ed(k,gsl_matrix_get(d->matrix,i,j),r<=c?j:i); CHECK(vp_close(s,e,1e-9),"sum %g, not %g",s,e); }
    free(s0); apop_data_free(o0); if(o&&o!=d) apop_data_free(o); apop_data_free(d); }
static void vectors(int q){ int r,c; apop_data *d=gen(G_M|vp_flags(G_V|G_W|G_RN|G_CN|G_VN|G_T),&r,&c); int k=vp_int(0,3); char part="rc"[vp_flip()]; int ip="nyv"[vp_int(0,2)], def=part=='r'&&vp_flip(); int n=part=='r'?r:c; if(ip=='y'&&part=='c'&&n>r) ip='n'; char *s0=vp_ser(d); vp_note("vector function %d part %c inplace %c of %s",k,part,ip,s0); apop_data *o0=apop_data_copy(d); double e[9],es=0; for(int i=0;i<n;i++){ gsl_vector *v=part=='r'?Apop_rv(o0,i):Apop_cv(o0,i); e[i]=vs(v)+(k&2?1000*i:0)+(k&1?par:0); es+=e[i]; }
    nc=0; apop_data *o; if(def) o=k==0?apop_map(d,.fn_v=V,.inplace=ip):k==1?apop_map(d,.fn_vp=VP,.param=&par,.inplace=ip):k==2?apop_map(d,.fn_vi=VI,.inplace=ip):apop_map(d,.fn_vpi=VPI,.param=&par,.inplace=ip); else o=k==0?apop_map(d,.fn_v=V,.inplace=ip,.part=part):k==1?apop_map(d,.fn_vp=VP,.param=&par,.inplace=ip,.part=part):k==2?apop_map(d,.fn_vi=VI,.inplace=ip,.part=part):apop_map(d,.fn_vpi=VPI,.param=&par,.inplace=ip,.part=part);
    CHECK(nc==n,"%d calls for %d",nc,n); if(ip!='y'){ char *s1=vp_ser(d); CHECK(!strcmp(s0,s1),"input changed"); free(s1); } if(ip=='v') CHECK(!o,"output given");
    else { CHECK(o&&o->vector,"no output"); if(ip=='y') CHECK(o==d,"not in place"); else { CHECK((int)o->vector->size==(part=='c'?c:r),"%zu results",o->vector->size); int nn=part=='r'?o0->names->rowct:o0->names->colct; CHECK(o->names->rowct==nn,"%d names for the results, not %d",o->names->rowct,nn); for(int i=0;i<nn;i++) CHECK(!strcmp(o->names->row[i],part=='r'?o0->names->row[i]:o0->names->col[i]),"name %d",i); } for(int i=0;i<n;i++) CHECK(vp_close(gsl_vector_get(o->vector,i),e[i],1e-9),"result %d is %g, not %g",i,gsl_vector_get(o->vector,i),e[i]); for(int i=0;i<r;i++) for(int j=0;j<c;j++) CHECK(gsl_matrix_get(d->matrix,i,j)==gsl_matrix_get(o0->matrix,i,j),"matrix changed"); }
    if(ip!='y'){ double s=k==0?apop_map_sum(d,.fn_v=V,.part=part):k==1?apop_map_sum(d,.fn_vp=VP,.param=&par,.part=part):k==2?apop_map_sum(d,.fn_vi=VI,.part=part):apop_map_sum(d,.fn_vpi=VPI,.param=&par,.part=part); CHECK(vp_close(s,es,1e-9),"sum %g, not %g",s,es); }
    free(s0); apop_data_free(o0); if(o&&o!=d) apop_data_free(o); apop_data_free(d); }
static void rows(int q){ int r,c; apop_data *d=gen(vp_flags(G_V|G_M|G_W|G_RN|G_CN|G_VN|G_T),&r,&c); if(!d->vector&&!d->matrix&&!d->textsize[0]){ apop_data_free(d); d=gen(G_M|G_T,&r,&c); } int k=vp_int(0,3), ip="nv"[vp_flip()]; char *s0=vp_ser(d); vp_note("row function %d inplace %c of %s",k,ip,s0); nc=0; apop_data *o=k==0?apop_map(d,.fn_r=Rr,.inplace=ip):k==1?apop_map(d,.fn_rp=RP,.param=&par,.inplace=ip):k==2?apop_map(d,.fn_ri=RI,.inplace=ip):apop_map(d,.fn_rpi=RPI,.param=&par,.inplace=ip); char *s1=vp_ser(d); CHECK(!strcmp(s0,s1),"input changed"); free(s1); CHECK(nc==r,"%d calls for %d rows",nc,r); double es=0; if(ip=='v') CHECK(!o,"output"); else { CHECK(o&&o->vector&&(int)o->vector->size==r,"results"); CHECK(o->names->rowct==d->names->rowct,"row names"); }
    for(int i=0;i<r;i++){ double e=rs(Apop_r(d,i))+(k&2?1e6*i:0)+(k&1?par:0); es+=e; if(o) CHECK(vp_close(gsl_vector_get(o->vector,i),e,1e-9),"row %d gives %g, not %g",i,gsl_vector_get(o->vector,i),e); } double s=k==0?apop_map_sum(d,.fn_r=Rr):k==1?apop_map_sum(d,.fn_rp=RP,.param=&par):k==2?apop_map_sum(d,.fn_ri=RI):apop_map_sum(d,.fn_rpi=RPI,.param=&par); CHECK(vp_close(s,es,1e-9),"sum %g, not %g",s,es); free(s0); if(o) apop_data_free(o); apop_data_free(d); }
static void A(double *x){HIT;*x=2*(*x)-1;} static void AV(gsl_vector*v){HIT; for(int i=0;i<(int)v->size;i++) gsl_vector_set(v,i,gsl_vector_get(v,i)*2-1-i); }
static void old(int q){ int r,c; apop_data *d=gen(G_M|G_V,&r,&c); apop_data *o0=apop_data_copy(d); char *s0=vp_ser(d); vp_note("older forms on %s",s0); free(s0); gsl_vector *v=gsl_vector_alloc(r); gsl_matrix *m=gsl_matrix_alloc(r,c+2); gsl_matrix_set_all(m,-9); gsl_matrix *sub=Apop_subm(m,0,1,r,c); gsl_matrix_memcpy(sub,d->matrix); 
    nc=0; gsl_vector *o=apop_vector_map(d->vector,D); CHECK(nc==r&&(int)o->size==r,"calls"); for(int i=0;i<r;i++) CHECK(gsl_vector_get(o,i)==ed(0,gsl_vector_get(o0->vector,i),i),"vector_map %d",i); gsl_vector_free(o); o=apop_vector_map(Apop_mcv(sub,c-1),D); for(int i=0;i<r;i++) CHECK(gsl_vector_get(o,i)==ed(0,gsl_matrix_get(sub,i,c-1),i),"vector_map of a column %d",i); gsl_vector_free(o);
    o=apop_matrix_map(sub,V); CHECK((int)o->size==r,"size"); for(int i=0;i<r;i++) CHECK(vp_close(gsl_vector_get(o,i),vs(Apop_mrv(sub,i)),1e-9),"matrix_map %d",i); gsl_vector_free(o); gsl_matrix *mm=apop_matrix_map_all(sub,D); for(int i=0;i<r;i++) for(int j=0;j<c;j++) CHECK(gsl_matrix_get(mm,i,j)==ed(0,gsl_matrix_get(sub,i,j),0),"matrix_map_all %d,%d",i,j); gsl_matrix_free(mm);
    double s=apop_vector_map_sum(d->vector,D), e=0; for(int i=0;i<r;i++) e+=ed(0,gsl_vector_get(d->vector,i),i); CHECK(vp_close(s,e,1e-9),"vector_map_sum"); s=apop_matrix_map_sum(sub,V); e=0; for(int i=0;i<r;i++) e+=vs(Apop_mrv(sub,i)); CHECK(vp_close(s,e,1e-9),"matrix_map_sum"); s=apop_matrix_map_all_sum(sub,D); e=0; for(int i=0;i<r;i++) for(int j=0;j<c;j++) e+=ed(0,gsl_matrix_get(sub,i,j),0); CHECK(vp_close(s,e,1e-9),"matrix_map_all_sum");
    nc=0; apop_vector_apply(d->vector,A); CHECK(nc==r,"apply calls"); for(int i=0;i<r;i++) CHECK(gsl_vector_get(d->vector,i)==2*gsl_vector_get(o0->vector,i)-1,"vector_apply %d",i); nc=0; if(vp_flip()){ apop_matrix_apply(sub,AV); CHECK(nc==r,"apply calls"); for(int i=0;i<r;i++) for(int j=0;j<c;j++) CHECK(gsl_matrix_get(sub,i,j)==2*gsl_matrix_get(o0->matrix,i,j)-1-j,"matrix_apply %d,%d",i,j); } else { apop_matrix_apply_all(sub,A); CHECK(nc==r*c,"apply calls"); for(int i=0;i<r;i++) for(int j=0;j<c;j++) CHECK(gsl_matrix_get(sub,i,j)==2*gsl_matrix_get(o0->matrix,i,j)-1,"matrix_apply_all %d,%d",i,j); } for(int i=0;i<r;i++) CHECK(gsl_matrix_get(m,i,0)==-9&&gsl_matrix_get(m,i,c+1)==-9,"outside the matrix");
    CHECK(!apop_vector_map(NULL,D)&&!apop_matrix_map(NULL,V)&&!apop_matrix_map_all(NULL,D)&&!apop_map(NULL,.fn_d=D),"NULL"); gsl_vector_free(v); gsl_matrix_free(m); apop_data_free(o0); apop_data_free(d); }
static void pages(int q){ int n=vp_int(1,4), tot=0, ip="nyv"[vp_int(0,2)]; apop_data *d=NULL,*last=NULL; double e=0; vp_note("%d pages inplace %c",n,ip); for(int p=0;p<n;p++){ int r,c; apop_data *x=gen(G_M|vp_flags(G_V|G_W),&r,&c); tot+=r*c+(x->vector?r:0); e+=apop_map_sum(x,.fn_d=D); if(!d) d=last=x; else { last->more=x; last=x; } } apop_data *o0=apop_data_copy(d); nc=0; double s=apop_map_sum(d,.fn_d=D,.all_pages='y'); CHECK(nc==tot&&vp_close(s,e,1e-9),"sum over pages %g, not %g (%d calls for %d)",s,e,nc,tot); nc=0; apop_data *o=apop_map(d,.fn_d=D,.all_pages='y',.inplace=ip); CHECK(nc==tot,"%d calls for %d over %d pages",nc,tot,n); if(ip!='v'){ apop_data *a=o,*b=o0; for(int p=0;p<n;p++,a=a->more,b=b->more){ CHECK(a,"page %d missing",p); for(int i=0;i<(int)b->matrix->size1;i++) for(int j=0;j<(int)b->matrix->size2;j++) CHECK(gsl_matrix_get(a->matrix,i,j)==ed(0,gsl_matrix_get(b->matrix,i,j),0),"page %d",p); } CHECK(!a,"extra page"); } else CHECK(!o,"output"); apop_data_free(o0); if(o&&o!=d) apop_data_free(o); apop_data_free(d); }
int main(int c,char**v){ vp_case cs[]={{"scalars",scalars,5000},{"vectors",vectors,4000},{"rows",rows,3000},{"old",old,2000},{"pages",pages,800},{0}}; return vp_main(c,v,cs); }

#include "vp.h"
static gsl_vector *rv(int n){ gsl_vector *v=gsl_vector_alloc(n); for(int i=0;i<n;i++) gsl_vector_set(v,i,vp_num()); return v; }
static gsl_matrix *rm(int a,int b){ gsl_matrix *m=gsl_matrix_alloc(a,b); for(int i=0;i<a;i++) for(int j=0;j<b;j++) gsl_matrix_set(m,i,j,vp_num()); return m; }
#define G(m,i,j) (m)->data[(i)*(m)->tda+(j)]
#define E(v,i) (v)->data[(i)*(v)->stride]
static void vrealloc(int k){ int a=vp_int(1,12), n=vp_int(0,20); gsl_vector *v=rv(a), *o=gsl_vector_alloc(a); for(int i=0;i<a;i++) o->data[i]=v->data[i]; char *s=vp_servec(v); vp_note("%s -> %d",s,n); free(s);
    for(int r=0;r<3;r++){ gsl_vector *q=apop_vector_realloc(v,n); CHECK(q==v,"returned another vector"); CHECK(v->size==n&&v->stride==1&&v->block->size==n&&v->block->data==v->data,"size %zu",v->size); int m=n<a?n:a; for(int i=0;i<m;i++) CHECK(vp_same(v->data[i],o->data[i]),"element %d changed",i); for(int i=m;i<n;i++) v->data[i]=0; a=m; n=vp_int(1,20); }
    gsl_vector_free(v); gsl_vector_free(o); }
static void mrealloc(int k){ int a=vp_int(1,7),b=vp_int(1,7); gsl_matrix *m=rm(a,b), *o=gsl_matrix_alloc(a,b); for(int i=0;i<a*b;i++) o->data[i]=m->data[i]; int n=vp_int(vp_chance(10)?0:1,9), c=vp_int(vp_chance(5)?0:1,9); char *s=vp_sermat(m); vp_note("%s -> %dx%d",s,n,c); free(s);
    for(int r=0;r<3;r++){ gsl_matrix *q=apop_matrix_realloc(m,n,c); CHECK(q==m,"returned another matrix"); CHECK(m->size1==n&&m->size2==c&&m->tda==c&&m->block->size==n*c&&m->block->data==m->data,"size %zux%zu",m->size1,m->size2);
        a=n<a?n:a; b=c<b?c:b; for(int i=0;i<a;i++) for(int j=0;j<b;j++) CHECK(vp_same(G(m,i,j),o->data[i*o->tda+j]),"element %d,%d changed",i,j); for(int i=0;i<n;i++) for(int j=0;j<c;j++) if(i>=a||j>=b) G(m,i,j)=0; n=vp_int(1,9); c=vp_int(1,9); }
    gsl_matrix_free(m); gsl_matrix_free(o); }
static void views(int k){ int a=vp_int(2,7),b=vp_int(2,7); gsl_matrix *m=rm(a,b); char *s=vp_sermat(m); int r=vp_int(0,a-1), c=vp_int(0,b-1); gsl_vector col=gsl_matrix_column(m,c).vector, row=gsl_matrix_row(m,r).vector; gsl_matrix sub=gsl_matrix_submatrix(m,vp_flip()?0:1,vp_flip()?0:1,vp_int(1,a-1),vp_int(1,b-1)).matrix; vp_note("views of %s",s);
    CHECK(!apop_vector_realloc(&col,vp_int(0,9)),"column view resized"); CHECK(!apop_vector_realloc(&row,vp_int(0,9)),"row view resized"); CHECK(!apop_matrix_realloc(&sub,vp_int(0,9),vp_int(0,9)),"submatrix resized");
    gsl_matrix whole=gsl_matrix_submatrix(m,0,0,a,b).matrix; CHECK(!apop_matrix_realloc(&whole,2,2),"whole view resized"); gsl_vector *v=rv(a); char *sv=vp_servec(v); gsl_vector sv2=gsl_vector_subvector(v,0,a).vector, sv3=gsl_vector_subvector_with_stride(v,0,2,1).vector; CHECK(!apop_vector_realloc(&sv2,a+3)&&!apop_vector_realloc(&sv3,1),"subvector resized"); char *t=vp_servec(v); CHECK(!strcmp(t,sv),"parent changed"); free(t); free(sv); gsl_vector_free(v);
    char *s2=vp_sermat(m); CHECK(!strcmp(s,s2),"parent changed"); free(s); free(s2); gsl_matrix_free(m); }
static void nulls(int k){ int n=vp_int(0,5),c=vp_int(0,5); vp_note("NULL -> %d %d",n,c); gsl_vector *v=apop_vector_realloc(NULL,n); CHECK(n?(v&&v->size==n):!v,"vector"); if(v) gsl_vector_free(v); gsl_matrix *m=apop_matrix_realloc(NULL,n,c); CHECK(n&&c?(m&&m->size1==n&&m->size2==c):!m,"matrix"); if(m) gsl_matrix_free(m); }
static gsl_vector *anyv(int *kind,gsl_matrix **par,gsl_vector *view){ *par=NULL; *kind=vp_int(0,3); int n=vp_int(1,7); if(*kind==0) return NULL; if(*kind<3) return rv(n); *par=rm(n,3); *view=gsl_matrix_column(*par,vp_int(0,2)).vector; return view; }
static void vstack(int k){ gsl_matrix *p1,*p2; gsl_vector v1,v2; int k1,k2; gsl_vector *a=anyv(&k1,&p1,&v1), *b=anyv(&k2,&p2,&v2); char in=(k1==1&&vp_flip())?'y':'n'; char *sa=vp_servec(a),*sb_=vp_servec(b); vp_note("%s + %s inplace=%c",sa,sb_,in); int na=a?a->size:0, nb=b?b->size:0; double x[20]; for(int i=0;i<na;i++) x[i]=E(a,i); for(int i=0;i<nb;i++) x[na+i]=E(b,i);
    gsl_vector *o=apop_vector_stack(a,b,.inplace=in); if(!a&&!b) CHECK(!o,"both NULL"); else { CHECK(o&&o->size==na+nb,"size"); for(int i=0;i<na+nb;i++) CHECK(vp_same(E(o,i),x[i]),"element %d",i); }
    char *t=vp_servec(b); CHECK(!strcmp(t,sb_),"second changed"); free(t); if(in!='y'){ t=vp_servec(a); CHECK(!strcmp(t,sa),"first changed"); free(t); if(o) CHECK(o!=a&&o!=b&&(!a||o->data!=a->data)&&(!b||o->data!=b->data),"aliased"); } else if(a) CHECK(o==a,"not in place");
    if(o&&o!=a) gsl_vector_free(o); if(k1==3) gsl_matrix_free(p1); else if(a) gsl_vector_free(a); if(k2==3) gsl_matrix_free(p2); else if(b) gsl_vector_free(b); free(sa); free(sb_); }
static void mstack(int k){ char posn="rc"[vp_int(0,1)]; int A=vp_int(1,5),B=vp_int(1,5),C=vp_int(1,5),D=vp_int(1,5); int bad=vp_chance(10); if(!bad){ if(posn=='r') D=B; else C=A; } gsl_matrix *pa=rm(A+1,B+1),*a=rm(A,B), *b=rm(C,D), va; int view=vp_chance(20); if(view){ va=gsl_matrix_submatrix(pa,1,1,A,B).matrix; gsl_matrix_free(a); a=&va; }
    int na=vp_chance(8), nb=vp_chance(8); gsl_matrix *ua=na?NULL:a, *ub=nb?NULL:b; char in=(!view&&!na&&vp_flip())?'y':'n'; char *sa=vp_sermat(ua),*sb_=vp_sermat(ub); vp_note("%s + %s %c inplace=%c",sa,sb_,posn,in);
    gsl_matrix *oa=gsl_matrix_alloc(A,B); for(int i=0;i<A;i++) for(int j=0;j<B;j++) G(oa,i,j)=G(a,i,j);
    int ok=na||nb||(posn=='r'?B==D:A==C); gsl_matrix *o=apop_matrix_stack(ua,ub,posn,in); if(na&&nb) CHECK(!o,"both NULL"); else if(!ok) CHECK(!o,"mismatched sizes accepted"); else { CHECK(o,"no result"); int r0=na?0:A,c0=na?0:B; int R=na?C:nb?A:(posn=='r'?A+C:A), Q=na?D:nb?B:(posn=='r'?B:B+D); CHECK(o->size1==R&&o->size2==Q,"size %zux%zu",o->size1,o->size2);
        for(int i=0;i<R;i++) for(int j=0;j<Q;j++){ double w; if(na) w=G(b,i,j); else if(nb) w=G(oa,i,j); else if(posn=='r') w=i<A?G(oa,i,j):G(b,i-A,j); else w=j<B?G(oa,i,j):G(b,i,j-B); CHECK(vp_same(w,G(o,i,j)),"element %d,%d",i,j);} }
    char *t=vp_sermat(ub); CHECK(!strcmp(t,sb_),"second changed"); free(t); if(in!='y'||!ok){ t=vp_sermat(ua); CHECK(!strcmp(t,sa),"first changed"); free(t); if(o) CHECK(o!=ua&&o!=ub&&(!ua||o->data!=ua->data)&&(!ub||o->data!=ub->data),"aliased"); } else CHECK(o==ua,"not in place");
    if(o&&o!=a) gsl_matrix_free(o); if(!view) gsl_matrix_free(a); gsl_matrix_free(b); gsl_matrix_free(pa); gsl_matrix_free(oa); free(sa); free(sb_); }
int main(int c,char**v){ vp_case cs[]={{"vrealloc",vrealloc,1500},{"mrealloc",mrealloc,2500},{"views",views,500},{"nulls",nulls,100},{"vstack",vstack,1500},{"mstack",mstack,2500},{0}}; return vp_main(c,v,cs); }

#include "vp.h"
static void strided(gsl_vector **v){ /* the same elements, as a column of a matrix */
    if(!*v||!vp_chance(30)) return; int w=vp_int(2,4), at=vp_int(0,w-1); gsl_matrix *m=gsl_matrix_alloc((*v)->size,w); gsl_matrix_set_all(m,-77); for(int i=0;i<(int)(*v)->size;i++) gsl_matrix_set(m,i,at,gsl_vector_get(*v,i)); gsl_vector *n=malloc(sizeof *n); *n=gsl_matrix_column(m,at).vector; gsl_vector_free(*v); *v=n; /* the matrix is left to the process */ }
static apop_data *gen(int *r,int *cc,int *t){ *r=vp_int(1,7); *cc=vp_int(1,5); *t=vp_int(1,3); apop_data *d=vp_data(vp_flags(G_V|G_M|G_W|G_T|G_RN|G_CN|G_TN|G_VN|G_TITLE),*r,*cc,*t); strided(&d->vector); strided(&d->weights); return d; }
static int insame(double *p,double *q){ return p==q; }
static void chkvec(gsl_vector *v,gsl_vector *p,int at,int n,const char *w){ if(!p||(int)p->size<at+n){ CHECK(!v,"%s: a view of rows that are not there",w); return; } CHECK(v,"%s: no view",w); CHECK((int)v->size==n,"%s: size %zu",w,v->size); for(int i=0;i<n;i++) CHECK(insame(gsl_vector_ptr(v,i),gsl_vector_ptr(p,at+i)),"%s: element %d is not the parent's",w,i); }
static void rowsv(int k){ int r,cc,t; apop_data *d=gen(&r,&cc,&t); int at=vp_int(0,r), n=vp_int(1,r+1); if(vp_chance(70)){ at=vp_int(0,r-1); n=vp_int(1,r-at); } int short_=vp_chance(15)&&d->names->rowct>1; if(short_){ d->names->rowct--; free(d->names->row[d->names->rowct]); } char *s0=vp_ser(d); vp_note("rows %d..+%d of %s",at,n,s0);
    apop_data *v=n==1&&vp_flip()?Apop_r(d,at):Apop_rs(d,at,n); CHECK(v,"no view"); chkvec(v->vector,d->vector,at,n,"vector"); chkvec(v->weights,d->weights,at,n,"weights");
    if(d->matrix&&at+n<=r){ CHECK(v->matrix&&(int)v->matrix->size1==n&&v->matrix->size2==d->matrix->size2,"matrix size"); for(int i=0;i<n;i++) for(int j=0;j<cc;j++) CHECK(gsl_matrix_ptr(v->matrix,i,j)==gsl_matrix_ptr(d->matrix,at+i,j),"matrix (%d,%d)",i,j); } else CHECK(!v->matrix,"matrix view of nothing");
    if(d->text&&at+n<=r){ CHECK((int)v->textsize[0]==n&&(int)v->textsize[1]==t,"text size %zux%zu",v->textsize[0],v->textsize[1]); for(int i=0;i<n;i++) CHECK(v->text[i]==d->text[at+i],"text row %d",i); } else CHECK(v->textsize[0]==0,"text view of nothing");
    int rn=d->names->rowct>at?d->names->rowct-at:0; if(rn>n) rn=n; CHECK(v->names->rowct==rn,"%d row names for %d rows (%d named)",v->names->rowct,n,rn); for(int i=0;i<rn;i++) CHECK(!strcmp(v->names->row[i],d->names->row[at+i]),"row name %d",i);
    CHECK(v->names->colct==d->names->colct&&v->names->textct==d->names->textct&&v->names->title==d->names->title&&v->names->vector==d->names->vector,"other names"); for(int i=0;i<v->names->colct;i++) CHECK(!strcmp(v->names->col[i],d->names->col[i]),"column name");
    if(rn&&n<=r-at) for(int i=0;i<rn;i++){ int f=apop_name_find(v->names,d->names->row[at+i],'r'); CHECK(f>=0&&!strcasecmp(v->names->row[f],d->names->row[at+i]),"looking up row name <%s> in the view: %d",d->names->row[at+i],f); }
    CHECK(!v->more&&!v->error,"pages"); if(at+n<=r){ apop_data *cp=apop_data_copy(v); CHECK(cp&&cp->names->rowct==rn,"copy of the view"); apop_data_free(cp); }
    char *s1=vp_ser(d); CHECK(!strcmp(s0,s1),"the parent changed"); if(v->matrix){ gsl_matrix_set(v->matrix,n-1,cc-1,123.5); CHECK(gsl_matrix_get(d->matrix,at+n-1,cc-1)==123.5,"writing through the view"); }
    free(s0); free(s1); if(short_) d->names->rowct=d->names->rowct; apop_data_free(d); }
static void colsv(int k){ int r,cc,t; apop_data *d=gen(&r,&cc,&t); int at=vp_int(0,cc-1), n=vp_int(1,cc-at+(vp_chance(10)?1:0)); char *s0=vp_ser(d); vp_note("columns %d..+%d of %s",at,n,s0);
    apop_data *v=n==1&&vp_flip()?Apop_c(d,at+n-1):Apop_cs(d,at+n-n,n-1+1); if(!d->matrix||at+n>cc){ CHECK(!v,"a view of columns that are not there"); }
    else { CHECK(v&&v->matrix&&(int)v->matrix->size2==n&&(int)v->matrix->size1==r,"size"); for(int i=0;i<r;i++) for(int j=0;j<n;j++) CHECK(gsl_matrix_ptr(v->matrix,i,j)==gsl_matrix_ptr(d->matrix,i,at+j),"matrix (%d,%d)",i,j); CHECK(v->weights==d->weights&&!v->vector&&!v->more&&!v->error&&!v->textsize[0],"other parts");
        int rn=d->names->colct>at?d->names->colct-at:0; if(rn>n) rn=n; CHECK(v->names->colct==rn,"%d column names",v->names->colct); for(int i=0;i<rn;i++) CHECK(!strcmp(v->names->col[i],d->names->col[at+i]),"column name"); CHECK(v->names->rowct==d->names->rowct,"row names"); for(int i=0;i<d->names->rowct;i++) CHECK(!strcmp(v->names->row[i],d->names->row[i]),"row name");
        for(int i=0;i<rn;i++){ int f=apop_name_find(v->names,d->names->col[at+i],'c'); CHECK(f>=0&&!strcasecmp(v->names->col[f],d->names->col[at+i]),"looking up column name in the view: %d",f); }
        CHECK(v->names->textct==0||v->names->text,"text names without text"); apop_data *cp=apop_data_copy(v); CHECK(cp&&(int)cp->matrix->size2==n,"copy of the view"); apop_data_free(cp); }
    char *s1=vp_ser(d); CHECK(!strcmp(s0,s1),"the parent changed"); free(s0); free(s1); apop_data_free(d); }
static void vecs(int k){ int r,cc,t; apop_data *d=gen(&r,&cc,&t); int row=vp_int(-1,r), col=vp_int(-2,cc); vp_note("row %d, column %d of %dx%d%s",row,col,r,cc,d->matrix?"":", no matrix");
    gsl_matrix *m=d->matrix; gsl_vector *v=Apop_rv(d,row); int ok=m&&row>=0&&row<r; CHECK(!v==!ok,"Apop_rv"); if(ok){ CHECK((int)v->size==cc,"size"); for(int j=0;j<cc;j++) CHECK(gsl_vector_ptr(v,j)==gsl_matrix_ptr(m,row,j),"Apop_rv %d",j); gsl_vector *w=Apop_mrv(m,row); CHECK((int)w->size==cc&&gsl_vector_ptr(w,cc-1)==gsl_matrix_ptr(m,row,cc-1),"Apop_mrv"); }
    v=Apop_cv(d,col); if(col==-1) CHECK(v==d->vector,"column -1"); else { ok=m&&col>=0&&col<cc; CHECK(!v==!ok,"Apop_cv"); if(ok){ CHECK((int)v->size==r,"size"); for(int j=0;j<r;j++) CHECK(gsl_vector_ptr(v,j)==gsl_matrix_ptr(m,j,col),"Apop_cv %d",j); gsl_vector *w=Apop_mcv(m,col); CHECK((int)w->size==r&&gsl_vector_ptr(w,r-1)==gsl_matrix_ptr(m,r-1,col),"Apop_mcv"); } }
    if(m){ int a=vp_int(0,r),b=vp_int(0,cc),e=vp_int(1,r),f=vp_int(1,cc); gsl_matrix *s=Apop_subm(m,a,b,e,f); int has=a+e<=r&&b+f<=cc; CHECK(!s==!has,"Apop_subm %d %d %d %d",a,b,e,f); if(has){ CHECK((int)s->size1==e&&(int)s->size2==f,"size"); for(int i=0;i<e;i++) for(int j=0;j<f;j++) CHECK(gsl_matrix_ptr(s,i,j)==gsl_matrix_ptr(m,a+i,b+j),"Apop_subm"); gsl_matrix *s2=Apop_subm(s,e-1,f-1,1,1); CHECK(gsl_matrix_ptr(s2,0,0)==gsl_matrix_ptr(m,a+e-1,b+f-1),"view of a view"); } }
    /* the older named forms, by name */
    if(m){ int q=vp_int(0,r-1),p=vp_int(0,cc-1); char nm[20]; while(d->names->rowct<r){ sprintf(nm,"rr%d",d->names->rowct); apop_name_add(d->names,nm,'r'); } while(d->names->colct<cc){ sprintf(nm,"cc%d",d->names->colct); apop_name_add(d->names,nm,'c'); }
        int fq=apop_name_find(d->names,d->names->row[q],'r'),fp=apop_name_find(d->names,d->names->col[p],'c'); 
        { Apop_row_tv(d,d->names->row[q],x); CHECK(x->data==gsl_matrix_ptr(m,fq,0),"Apop_row_tv"); Apop_row_t(d,d->names->row[q],y); CHECK(y->matrix->data==gsl_matrix_ptr(m,fq,0),"Apop_row_t"); }
        if(fp>=0){ Apop_col_tv(d,d->names->col[p],x); CHECK(x->data==gsl_matrix_ptr(m,0,fp),"Apop_col_tv"); Apop_col_t(d,d->names->col[p],y); CHECK(y->matrix->data==gsl_matrix_ptr(m,0,fp),"Apop_col_t"); }
        Apop_row_v(d,q,z); CHECK(z->data==gsl_matrix_ptr(m,q,0),"Apop_row_v"); Apop_col_v(d,p,z2); CHECK(z2->data==gsl_matrix_ptr(m,0,p),"Apop_col_v"); Apop_submatrix(m,q,p,1,1,z3); CHECK(z3->data==gsl_matrix_ptr(m,q,p),"Apop_submatrix"); }
    apop_data_free(d); }
int main(int c,char**v){ vp_case cs[]={{"rows",rowsv,6000},{"cols",colsv,6000},{"vecs",vecs,6000},{0}}; return vp_main(c,v,cs); }

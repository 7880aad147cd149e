#include "vp.h"
extern char *apop_nul_string;
static apop_data *mk(int *desc){
    int f=vp_flags(G_V|G_M|G_W|G_T|G_RN|G_CN|G_TN|G_VN|G_TITLE), r=vp_int(0,6), c=vp_int(0,5), t=vp_int(0,4);
    if(vp_chance(5)) {r=vp_int(20,70); c=vp_int(1,20);}
    apop_data *d=vp_data(f,r,c,t); 
    if(vp_chance(30) && d->textsize[0]) for(int i=0;i<d->textsize[0];i++) if(vp_flip()){ int j=vp_int(0,d->textsize[1]-1); if(vp_flip()) apop_text_set(d,i,j,""); else { if(d->text[i][j]!=apop_nul_string) free(d->text[i][j]); d->text[i][j]=apop_nul_string; } }
    return d; }
static apop_data *mkpages(void){ apop_data *d=mk(0); int n=vp_chance(50)?0:vp_int(1,3); apop_data *e=d; for(int i=0;i<n;i++){ e->more=mk(0); e=e->more; } return d; }
static void scribble(apop_data *d){ for(;d;d=d->more){
    if(d->vector) gsl_vector_set_all(d->vector,777.5); if(d->matrix) gsl_matrix_set_all(d->matrix,778.5); if(d->weights) gsl_vector_set_all(d->weights,779.5);
    for(int i=0;i<d->textsize[0];i++) for(int j=0;j<d->textsize[1];j++) apop_text_set(d,i,j,"scribbled %d",i);
    if(d->names){ apop_name *n=d->names; for(int i=0;i<n->colct;i++) if(*n->col[i]) n->col[i][0]='#'; for(int i=0;i<n->rowct;i++) if(*n->row[i]) n->row[i][0]='#'; for(int i=0;i<n->textct;i++) if(*n->text[i]) n->text[i][0]='#'; if(n->title&&*n->title) n->title[0]='#'; if(n->vector&&*n->vector) n->vector[0]='#';
      apop_name_add(n,"extra",'r'); apop_name_add(n,"extra",'c'); apop_name_add(n,"extra",'t'); } } }
static void copy_data(int k){ apop_data *d=mkpages(); char *s=vp_ser(d); vp_note("%.3000s",s);
    apop_data *c=apop_data_copy(d); char *s2=vp_ser(c), *s3=vp_ser(d);
    CHECK(c!=d && c,"copy is the original"); CHECK(!c->error,"error flag %c on copy",c->error);
    CHECK(!strcmp(s,s3),"original changed by copying: %.800s",s3); CHECK(!strcmp(s,s2),"copy differs: %.1200s",s2);
    for(apop_data *a=d,*b=c;a;a=a->more,b=b->more){ CHECK(a!=b && (!a->vector||a->vector->data!=b->vector->data)&&(!a->matrix||a->matrix->data!=b->matrix->data)&&(!a->weights||a->weights->data!=b->weights->data)&&(!a->names||a->names!=b->names),"shared storage");
        if(a->names) for(int i=0;i<a->names->rowct;i++) CHECK(apop_name_find(b->names,a->names->row[i],'r')>=0,"row name not found in copy"); 
        if(a->names) for(int i=0;i<a->names->colct;i++) CHECK(apop_name_find(b->names,a->names->col[i],'c')==apop_name_find(a->names,a->names->col[i],'c'),"column lookup differs in copy"); }
    if(k&1){ scribble(c); char *s4=vp_ser(d); CHECK(!strcmp(s,s4),"writing to the copy changed the original: %.800s",s4); free(s4); apop_data_free(c); char *s5=vp_ser(d); CHECK(!strcmp(s,s5),"freeing the copy changed the original"); free(s5); apop_data_free(d);}
    else { scribble(d); apop_data_free(d); char *s4=vp_ser(c); CHECK(!strcmp(s,s4),"writing to or freeing the original changed the copy: %.800s",s4); free(s4); apop_data_free(c);}
    free(s);free(s2);free(s3); }
static void memcpy_same(int k){ apop_data *d=mkpages(); apop_data *o=apop_data_copy(d); scribble(o);
    for(apop_data *p=o;p;p=p->more){ apop_name_free(p->names); p->names=apop_name_alloc(); if(vp_flip()) apop_name_add(p->names,"old title",'h'); }
    char *s=vp_ser(d); vp_note("%.3000s",s); apop_data_memcpy(o,d); CHECK(!o->error,"error set by memcpy to equal shape");
    char *s3=vp_ser(d); CHECK(!strcmp(s,s3),"memcpy changed its source");
    for(apop_data *a=d,*b=o;a;a=a->more,b=b->more){
        char *x=vp_servec(a->vector),*y=vp_servec(b->vector); CHECK(!strcmp(x,y),"vector: %s vs %s",x,y); free(x);free(y);
        x=vp_sermat(a->matrix);y=vp_sermat(b->matrix); CHECK(!strcmp(x,y),"matrix: %s vs %s",x,y); free(x);free(y);
        x=vp_servec(a->weights);y=vp_servec(b->weights); CHECK(!strcmp(x,y),"weights: %s vs %s",x,y); free(x);free(y);
        CHECK(a->textsize[0]==b->textsize[0]&&a->textsize[1]==b->textsize[1],"text size"); for(int i=0;i<a->textsize[0];i++) for(int j=0;j<a->textsize[1];j++) CHECK(!strcmp(a->text[i][j],b->text[i][j]) && (a->text[i][j]!=b->text[i][j]||!*a->text[i][j]),"text cell %d,%d",i,j);
        for(int i=0;i<a->names->rowct;i++) CHECK(i<b->names->rowct&&!strcmp(a->names->row[i],b->names->row[i]),"row name");
        for(int i=0;i<a->names->colct;i++) CHECK(i<b->names->colct&&!strcmp(a->names->col[i],b->names->col[i]),"col name");
        for(int i=0;i<a->names->textct;i++) CHECK(i<b->names->textct&&!strcmp(a->names->text[i],b->names->text[i]),"text name");
        if(a->names->title) CHECK(b->names->title&&!strcmp(a->names->title,b->names->title),"title");
    }
    apop_data_free(o); char *s4=vp_ser(d); CHECK(!strcmp(s,s4),"freeing the target changed the source"); apop_data_free(d); free(s);free(s3);free(s4); }
static void memcpy_mismatch(int k){
    /* source has one part that is bigger / missing in the target: an error, nothing out of bounds */
    int part=vp_int(0,7); apop_data *d=vp_data(G_V|G_M|G_W|G_T,vp_int(2,5),vp_int(2,4),vp_int(2,4)); apop_data *o=apop_data_copy(d); char want='d';
    vp_note("part %d of %zux%zu text %zu",part,d->matrix->size1,d->matrix->size2,d->textsize[1]);
    switch(part){
      case 0: apop_vector_realloc(o->vector,o->vector->size-1); break;
      case 1: apop_matrix_realloc(o->matrix,o->matrix->size1-1,o->matrix->size2); break;
      case 2: apop_matrix_realloc(o->matrix,o->matrix->size1,o->matrix->size2-1); break;
      case 3: apop_vector_realloc(o->weights,o->weights->size-1); break;
      case 4: apop_text_alloc(o,o->textsize[0]-1,o->textsize[1]); break;
      case 5: apop_text_alloc(o,o->textsize[0],o->textsize[1]-1); break;
      case 6: gsl_vector_free(o->vector); o->vector=NULL; want='p'; break;
      case 7: gsl_matrix_free(o->matrix); o->matrix=NULL; want='p'; break; }
    size_t t0=o->textsize[0],t1=o->textsize[1];
    char *s=vp_ser(d);
    apop_data_memcpy(o,d); CHECK(o->error==want,"error is '%c', expected '%c'",o->error?o->error:'0',want);
    CHECK(o->textsize[0]==t0&&o->textsize[1]==t1,"recorded text size of the target no longer matches its storage");
    char *s2=vp_ser(d); CHECK(!strcmp(s,s2),"source changed"); apop_data_free(o); apop_data_free(d); free(s);free(s2); }
static void vec_copy(int k){ int n=vp_int(1,12),st=vp_int(1,4),off=vp_int(0,3); gsl_vector *b=gsl_vector_alloc(off+n*st); for(int i=0;i<b->size;i++) gsl_vector_set(b,i,vp_num());
    gsl_vector_view vv=gsl_vector_subvector_with_stride(b,off,st,n); gsl_vector *v=vp_chance(20)?b:&vv.vector; char *s=vp_servec(v),*sb=vp_servec(b); vp_note("stride %d offset %d %.2000s",st,off,s);
    gsl_vector *c=apop_vector_copy(v); char *s2=vp_servec(c); CHECK(!strcmp(s,s2),"vector copy differs: %s",s2); CHECK(c->data!=v->data,"aliased"); CHECK(c->owner && c->block->data==c->data,"copy does not own its data"); gsl_vector_set_all(c,5); char *s3=vp_servec(b); CHECK(!strcmp(sb,s3),"original changed"); gsl_vector_free(c); gsl_vector_free(b); CHECK(!apop_vector_copy(NULL),"copy of NULL"); free(s);free(s2);free(s3);free(sb);}
static void mat_copy(int k){ int r=vp_int(1,8),c=vp_int(1,8); gsl_matrix *b=gsl_matrix_alloc(r,c); for(int i=0;i<r*c;i++) b->data[i]=vp_num(); int r0=vp_int(0,r-1),c0=vp_int(0,c-1); gsl_matrix_view mv=gsl_matrix_submatrix(b,r0,c0,vp_int(1,r-r0),vp_int(1,c-c0)); gsl_matrix *m=vp_chance(40)?b:&mv.matrix; char *s=vp_sermat(m),*sb=vp_sermat(b); vp_note("%.3000s in %dx%d",s,r,c);
    gsl_matrix *q=apop_matrix_copy(m); char *s2=vp_sermat(q); CHECK(!strcmp(s,s2),"matrix copy differs: %s",s2); gsl_matrix_set_all(q,3); char *s3=vp_sermat(b); CHECK(!strcmp(sb,s3),"original changed"); gsl_matrix_free(q); gsl_matrix_free(b); CHECK(!apop_matrix_copy(NULL),"copy of NULL"); free(s);free(s2);free(s3);free(sb);}
static void name_copy(int k){ apop_data *d=vp_data(vp_flags(G_RN|G_CN|G_TN|G_VN|G_TITLE),vp_int(0,5),vp_int(0,5),vp_int(0,5)); char *s=vp_sernames(d->names); vp_note("%.3000s",s); apop_name *n=apop_name_copy(d->names); char *s2=vp_sernames(n); CHECK(!strcmp(s,s2),"name copy differs: %s",s2); apop_data x={.names=n}; scribble(&x); char *s3=vp_sernames(d->names); CHECK(!strcmp(s,s3),"original names changed"); apop_name_free(n); apop_data_free(d); free(s);free(s2);free(s3);}
static void copy_view(int k){ apop_data *d=vp_data(G_V|G_M|G_W|G_T|G_RN|G_CN,vp_int(1,6),vp_int(1,5),vp_int(1,3)); int r=vp_int(0,d->matrix->size1-1); vp_note("row %d of %zux%zu",r,d->matrix->size1,d->matrix->size2); char *s=vp_ser(d);
    apop_data *v=Apop_r(d,r); apop_data *c=apop_data_copy(v); char *a=vp_ser1(v),*b=vp_ser1(c); CHECK(!strcmp(a,b),"copy of a row view differs: %s vs %s",a,b); scribble(c); char *s2=vp_ser(d); CHECK(!strcmp(s,s2),"parent changed"); apop_data_free(c); char *s3=vp_ser(d); CHECK(!strcmp(s,s3),"parent changed by free");
    int to=vp_int(0,d->matrix->size1-1); apop_data_memcpy(Apop_r(d,to),Apop_r(d,r)); for(int j=-1;j<(int)d->matrix->size2;j++) CHECK(vp_same(apop_data_get(d,to,j),apop_data_get(d,r,j)),"row to row copy"); for(int j=0;j<d->textsize[1];j++) CHECK(!strcmp(d->text[to][j],d->text[r][j])&&(to==r||d->text[to][j]!=d->text[r][j]||!*d->text[r][j]),"row to row text copy"); CHECK(d->weights->data[to]==d->weights->data[r],"row to row weight"); apop_data_free(d); free(s);free(s2);free(s3);free(a);free(b);}
static void misc(int k){ vp_note("null and cyclic"); CHECK(!apop_data_copy(NULL),"copy of NULL"); apop_data_memcpy(NULL,NULL); apop_data *d=apop_data_alloc(2); d->more=d; apop_data *c=apop_data_copy(d); CHECK(c->error=='c',"cyclic not flagged"); CHECK(d->more==d,"changed"); apop_data_memcpy(NULL,d); d->more=NULL; d->error='q'; c=apop_data_copy(d); CHECK(c->error=='q',"error flag lost"); }
int main(int c,char**v){ vp_case cs[]={{"misc",misc,1},{"copy_data",copy_data,1500},{"memcpy_same",memcpy_same,800},{"memcpy_mismatch",memcpy_mismatch,200},{"vec_copy",vec_copy,400},{"mat_copy",mat_copy,400},{"name_copy",name_copy,400},{"copy_view",copy_view,300},{0}}; return vp_main(c,v,cs); }

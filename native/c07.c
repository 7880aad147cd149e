#include "vp.h"
extern char *apop_nul_string;
static apop_data *mk(void){ int f=vp_flags(G_V|G_W|G_RN|G_CN|G_TN|G_VN|G_TITLE); apop_data *d=vp_data(f,vp_int(0,6),vp_int(0,6),0); char b[100];
    if(vp_chance(75)){ if(d->matrix) gsl_matrix_free(d->matrix); d->matrix=gsl_matrix_alloc(vp_int(1,7),vp_int(1,7)); for(int i=0;i<d->matrix->size1;i++) for(int j=0;j<d->matrix->size2;j++) gsl_matrix_set(d->matrix,i,j,vp_num()); }
    else { if(d->matrix) gsl_matrix_free(d->matrix); d->matrix=NULL; }
    if(!d->matrix || vp_flip()){ int r=vp_int(1,6),c=vp_chance(20)?r:vp_int(1,6); apop_text_alloc(d,r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) if(vp_chance(80)) apop_text_set(d,i,j,"%s",vp_str(b));
        if(f&G_TN) for(int j=0;j<c;j++) apop_name_add(d->names,vp_str(b),'t'); }
    return d; }
static void list(char **a,int n,char**b,int m,const char*w){ CHECK(n==m,"%s: %d names, expected %d",w,m,n); for(int i=0;i<n;i++) CHECK(!strcmp(a[i],b[i]),"%s %d: <%s> expected <%s>",w,i,b[i],a[i]); }
static void check(apop_data *d,apop_data *o,int text){
    CHECK(!!d->matrix==!!o->matrix,"matrix lost");
    if(d->matrix){ CHECK(o->matrix->size1==d->matrix->size2&&o->matrix->size2==d->matrix->size1,"size"); for(int i=0;i<d->matrix->size1;i++) for(int j=0;j<d->matrix->size2;j++) CHECK(vp_same(gsl_matrix_get(d->matrix,i,j),gsl_matrix_get(o->matrix,j,i)),"element %d,%d",i,j); }
    if(text && d->textsize[0]){ CHECK(o->textsize[0]==d->textsize[1]&&o->textsize[1]==d->textsize[0],"text size %zu %zu",o->textsize[0],o->textsize[1]); for(int i=0;i<d->textsize[0];i++) for(int j=0;j<d->textsize[1];j++) CHECK(!strcmp(d->text[i][j],o->text[j][i]),"text %d,%d: <%s> expected <%s>",i,j,o->text[j][i],d->text[i][j]); }
    list(d->names->row,d->names->rowct,o->names->col,o->names->colct,"column name");
    if(d->names->colct || !text || !d->textsize[0]) list(d->names->col,d->names->colct,o->names->row,o->names->rowct,"row name");
    else list(d->names->text,d->names->textct,o->names->row,o->names->rowct,"row name (from text)");
    for(int i=0;i<o->names->colct;i++){ int q=apop_name_find(o->names,o->names->col[i],'c'); CHECK(q>=0&&!strcmp(o->names->col[q],o->names->col[i]),"column name <%s> found at %d",o->names->col[i],q); }
    for(int i=0;i<o->names->rowct;i++){ int q=apop_name_find(o->names,o->names->row[i],'r'); CHECK(q>=0&&!strcmp(o->names->row[q],o->names->row[i]),"row name <%s> found at %d",o->names->row[i],q); }
}
static void use(apop_data *o){ /* the result is usable: cells, names and elements can be changed and freed */
    for(int i=0;i<o->textsize[0];i++) for(int j=0;j<o->textsize[1];j++) apop_text_set(o,i,j,"%s+","x");
    apop_name_add(o->names,"one more",'r'); apop_name_add(o->names,"one more",'c'); CHECK(apop_name_find(o->names,"one more",'r')>=0&&apop_name_find(o->names,"one more",'c')>=0,"added name not found");
    if(o->textsize[0]) apop_text_alloc(o,o->textsize[0]+1,o->textsize[1]+1);
    apop_data_free(o); }
static void copy(int k){ apop_data *d=mk(); int t=vp_chance(80); char *s=vp_ser(d); vp_note("text=%d %.3000s",t,s); if(!d->matrix&&!d->textsize[0]) return;
    apop_data *o=apop_data_transpose(d,t?'y':'n','n'); CHECK(o&&o!=d,"not a copy"); char *s2=vp_ser(d); CHECK(!strcmp(s,s2),"input changed: %.1500s",s2); CHECK(!o->vector&&!o->weights,"vector or weights in the copy"); if(!t) CHECK(!o->textsize[0],"text in the copy");
    check(d,o,t); use(o); s2=vp_ser(d); CHECK(!strcmp(s,s2),"input changed by writing to the transpose"); apop_data_free(d); free(s); free(s2); }
static void inplace(int k){ apop_data *d=mk(); int t=vp_chance(80); char *s=vp_ser(d); vp_note("text=%d %.3000s",t,s); apop_data *o=apop_data_copy(d); char *v=vp_servec(d->vector),*w=vp_servec(d->weights);
    apop_data *r=t?apop_data_transpose(o):apop_data_transpose(o,.transpose_text='n'); CHECK(r==o,"not in place"); check(d,o,t); char *v2=vp_servec(o->vector),*w2=vp_servec(o->weights); CHECK(!strcmp(v,v2)&&!strcmp(w,w2),"vector or weights changed");
    if(!t && d->textsize[0]){ for(int i=0;i<d->textsize[0];i++) for(int j=0;j<d->textsize[1];j++) CHECK(o->textsize[0]==d->textsize[0]&&!strcmp(d->text[i][j],o->text[i][j]),"text changed"); }
    use(o); apop_data_free(d); free(s); }
static void twice(int k){ apop_data *d=mk(); char *s=vp_ser(d); vp_note("%.3000s",s); apop_data *o=apop_data_copy(d); int n=d->names->textct&&(!d->names->colct||!d->names->rowct); apop_data_transpose(o); apop_data_transpose(o); if(!n){ char *s2=vp_ser(o); CHECK(!strcmp(s,s2),"twice: %.1500s",s2); }
    if(d->matrix){ apop_data *a=apop_data_transpose(d,.inplace='n'),*b=apop_data_transpose(a,.inplace='n'); char *x=vp_sermat(d->matrix),*y=vp_sermat(b->matrix); CHECK(!strcmp(x,y),"twice (copy)"); apop_data_free(a); apop_data_free(b); }
    apop_data_free(o); apop_data_free(d); }
static void views(int k){ gsl_matrix *m=gsl_matrix_alloc(6,6); for(int i=0;i<36;i++) m->data[i]=vp_num(); int r=vp_int(1,4),c=vp_int(1,4); gsl_matrix_view v=gsl_matrix_submatrix(m,vp_int(0,2),vp_int(0,2),r,c); vp_note("view %dx%d tda 6",r,c); apop_data d={.matrix=&v.matrix}; char*x=vp_sermat(m); apop_data *o=apop_data_transpose(&d,.inplace='n'); for(int i=0;i<r;i++) for(int j=0;j<c;j++) CHECK(vp_same(gsl_matrix_get(&v.matrix,i,j),gsl_matrix_get(o->matrix,j,i)),"view element"); char*y=vp_sermat(m); CHECK(!strcmp(x,y),"input changed"); apop_data_free(o); gsl_matrix_free(m); }
static void misc(int k){ vp_note("null"); CHECK(!apop_data_transpose(NULL),"NULL"); apop_data *d=apop_data_alloc(3); apop_data *o=apop_data_transpose(d,.inplace='n'); CHECK(o&&!o->matrix&&!o->textsize[0],"empty"); }
size_t __sanitizer_get_current_allocated_bytes(void);
static void leak(int k){ int r=vp_int(1,9),c=vp_int(1,9); vp_note("storage of a %dx%d grid",r,c); size_t b0=__sanitizer_get_current_allocated_bytes(); for(int n=0;n<3;n++){ apop_data *d=apop_text_alloc(NULL,r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) if(vp_chance(70)) apop_text_set(d,i,j,"%*d",vp_int(1,50),i+j); apop_data_transpose(d); if(vp_flip()) apop_data_transpose(d); apop_data_free(d); if(!n) b0=__sanitizer_get_current_allocated_bytes(); } CHECK(__sanitizer_get_current_allocated_bytes()<=b0,"%zu bytes never released",__sanitizer_get_current_allocated_bytes()-b0); }
int main(int c,char**v){ vp_case cs[]={{"misc",misc,1},{"copy",copy,1500},{"inplace",inplace,1500},{"twice",twice,800},{"views",views,200},{"leak",leak,100},{0}}; return vp_main(c,v,cs); }

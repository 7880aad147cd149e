#include "vp.h"
static apop_data *mk(int rag){ int f=vp_flags(G_V|G_W|G_M|G_RN|G_CN|G_T|G_TN|G_VN|G_TITLE|G_UNIQ); if(!(f&(G_V|G_M|G_T))) f|=G_V; apop_data *d=vp_data(f,vp_int(1,8),vp_int(1,4),vp_int(1,3)); int b=8;
    if(rag){ /* parts of different heights */
        if(d->vector&&vp_flip()) apop_vector_realloc(d->vector,vp_int(1,b)); if(d->weights&&vp_flip()) apop_vector_realloc(d->weights,vp_int(1,b)); if(d->matrix&&vp_flip()){ apop_matrix_realloc(d->matrix,vp_int(1,b),d->matrix->size2); } if(*d->textsize&&vp_flip()) apop_text_alloc(d,vp_int(1,b),d->textsize[1]);
        if(d->vector) for(int i=0;i<d->vector->size;i++) gsl_vector_set(d->vector,i,vp_num()); if(d->weights) for(int i=0;i<d->weights->size;i++) gsl_vector_set(d->weights,i,vp_fin()); if(d->matrix) for(int i=0;i<d->matrix->size1;i++) for(int j=0;j<d->matrix->size2;j++) gsl_matrix_set(d->matrix,i,j,vp_num());
        while(d->names->rowct&&vp_chance(25)){ free(d->names->row[--d->names->rowct]); } }
    if(vp_chance(15)) apop_data_add_page(d,vp_data(G_M|G_V|G_CN,3,3,0),"extra"); return d; }
static int height(apop_data *d){ int h=0; if(d->vector) h=d->vector->size; if(d->matrix&&d->matrix->size1>h) h=d->matrix->size1; if(*d->textsize>h) h=*d->textsize; return h; }
/* d must be o with the rows for which !drop */
static void same(apop_data *d,apop_data *o,char *drop,int h){
    int v=0,w=0,m=0,t=0,r=0; 
    for(int i=0;i<h;i++) if(!drop[i]){
        if(o->vector&&i<o->vector->size){ CHECK(d->vector&&v<d->vector->size&&vp_same(gsl_vector_get(d->vector,v),gsl_vector_get(o->vector,i)),"vector row %d",i); v++; }
        if(o->weights&&i<o->weights->size){ CHECK(d->weights&&w<d->weights->size&&vp_same(gsl_vector_get(d->weights,w),gsl_vector_get(o->weights,i)),"weight %d",i); w++; }
        if(o->matrix&&i<o->matrix->size1){ CHECK(d->matrix&&m<d->matrix->size1&&d->matrix->size2==o->matrix->size2,"matrix size"); for(int j=0;j<o->matrix->size2;j++) CHECK(vp_same(gsl_matrix_get(d->matrix,m,j),gsl_matrix_get(o->matrix,i,j)),"matrix row %d",i); m++; }
        if(i<o->textsize[0]){ CHECK(t<d->textsize[0]&&d->textsize[1]==o->textsize[1],"text size"); for(int j=0;j<o->textsize[1];j++) CHECK(!strcmp(d->text[t][j],o->text[i][j]),"text row %d: <%s> expected <%s>",i,d->text[t][j],o->text[i][j]); t++; }
        if(i<o->names->rowct){ CHECK(r<d->names->rowct&&!strcmp(d->names->row[r],o->names->row[i]),"row name %d: <%s> expected <%s>",i,d->names->row[r],o->names->row[i]); r++; }
    }
    CHECK((d->vector?d->vector->size:0)==v,"vector has %zu rows, expected %d",d->vector?d->vector->size:0,v); CHECK((d->weights?d->weights->size:0)==w,"weights: %zu rows, expected %d",d->weights?d->weights->size:0,w); CHECK((d->matrix?d->matrix->size1:0)==m,"matrix: %zu rows, expected %d",d->matrix?d->matrix->size1:0,m); CHECK(d->textsize[0]==t,"text: %zu rows, expected %d",d->textsize[0],t); CHECK(d->names->rowct==r,"%d row names, expected %d",d->names->rowct,r);
    CHECK(d->names->colct==o->names->colct&&d->names->textct==o->names->textct,"number of column names"); for(int i=0;i<o->names->colct;i++) CHECK(!strcmp(d->names->col[i],o->names->col[i]),"column name %d",i); for(int i=0;i<o->names->textct;i++) CHECK(!strcmp(d->names->text[i],o->names->text[i]),"text name %d",i);
    CHECK(!o->names->title==!d->names->title&&(!o->names->title||!strcmp(o->names->title,d->names->title)),"title"); CHECK(!o->names->vector==!d->names->vector&&(!o->names->vector||!strcmp(o->names->vector,d->names->vector)),"vector name");
    char *a=vp_ser(d->more),*b=vp_ser(o->more); CHECK(!strcmp(a,b),"further pages changed"); free(a); free(b);
    for(int i=0;i<r;i++){ int q=apop_name_find(d->names,d->names->row[i],'r'); CHECK(q>=0&&!strcmp(d->names->row[q],d->names->row[i]),"row name <%s> found at %d",d->names->row[i],q); }
}
static void use(apop_data *d){ for(int i=0;i<d->textsize[0];i++) for(int j=0;j<d->textsize[1];j++) apop_text_set(d,i,j,"x"); if(d->vector) gsl_vector_set_all(d->vector,1); if(d->weights) gsl_vector_set_all(d->weights,2); if(d->matrix) gsl_matrix_set_all(d->matrix,3); apop_name_add(d->names,"another",'r'); CHECK(!strcmp(d->names->row[d->names->rowct-1],"another"),"adding a row name"); apop_data_free(d); }
static char *bits(char*m,int h){ static char b[40]; for(int i=0;i<h;i++) b[i]=m[i]?'1':'0'; b[h]=0; return b; }
static void marks(int k){ apop_data *d=mk(vp_chance(30)); int h=height(d),p=vp_chance(12)?100:vp_chance(12)?0:vp_int(10,90); int *drop=calloc(h?h:1,sizeof(int)); char m[40]={0}; for(int i=0;i<h;i++) if((m[i]=vp_chance(p))) drop[i]=vp_chance(80)?1:(vp_flip()?1:-1)*vp_int(1,512); char *s=vp_ser(d); vp_note("drop=%s %.3000s",bits(m,h),s); apop_data *o=apop_data_copy(d); apop_data *r=apop_data_rm_rows(d,drop); CHECK(r==d,"return"); same(d,o,m,h); use(d); apop_data_free(o); free(drop); free(s); }
static int calls; static char want[40]; static apop_data *parent;
static int pred(apop_data *row,void *x){ CHECK(x==want,"parameter"); CHECK(!parent->matrix||calls>=parent->matrix->size1||(row->matrix&&row->matrix->size1==1&&vp_same(gsl_matrix_get(row->matrix,0,0),gsl_matrix_get(parent->matrix,calls,0))),"row given to the function"); CHECK(!parent->vector||calls>=parent->vector->size||(row->vector&&row->vector->size==1&&vp_same(gsl_vector_get(row->vector,0),gsl_vector_get(parent->vector,calls))),"vector element given to the function"); CHECK(calls>=parent->textsize[0]||(row->textsize[0]==1&&!strcmp(row->text[0][0],parent->text[calls][0])),"text given to the function"); return want[calls++]; }
static void func(int k){ apop_data *d=mk(vp_chance(20)); int h=height(d),p=vp_chance(12)?100:vp_chance(12)?0:vp_int(10,90); for(int i=0;i<h;i++) want[i]=vp_chance(p)?(vp_flip()?1:7):0; char *s=vp_ser(d); vp_note("function drop=%s %.3000s",bits(want,h),s); apop_data *o=apop_data_copy(d); parent=o; calls=0; apop_data_rm_rows(d,.do_drop=pred,.drop_parameter=want); CHECK(calls==h,"function called %d times for %d rows",calls,h); same(d,o,want,h); use(d); apop_data_free(o); free(s); }
static int even(apop_data *row,void *x){ (*(int*)x)++; return row->vector && gsl_vector_get(row->vector,0)==2; }
static void both(int k){ int h=vp_int(1,8); apop_data *d=apop_data_alloc(h,h,2); int drop[10]; char m[40]={0}; for(int i=0;i<h;i++){ gsl_vector_set(d->vector,i,vp_int(1,3)); drop[i]=vp_chance(30); m[i]=drop[i]||gsl_vector_get(d->vector,i)==2; apop_data_set(d,i,0,i); apop_data_set(d,i,1,-i); } int n=0; char *s=vp_ser(d); vp_note("both drop=%s %s",bits(m,h),s); apop_data *o=apop_data_copy(d); apop_data_rm_rows(d,drop,even,&n); same(d,o,m,h); use(d); apop_data_free(o); free(s); }
static void none(int k){ apop_data *d=mk(0); char *s=vp_ser(d); vp_note("neither"); CHECK(apop_data_rm_rows(d)==d,"return"); char *s2=vp_ser(d); CHECK(!strcmp(s,s2),"changed"); CHECK(!apop_data_rm_rows(NULL),"NULL"); apop_data_free(d); }
static void subsets(int k){ int n=1; while(k>=(1<<n)){ k-=1<<n; n++; } apop_data *d=vp_data(G_V|G_M|G_W|G_T|G_RN|G_CN|G_TN|G_UNIQ,n,2,2); int drop[8]; char m[40]={0}; for(int i=0;i<n;i++) m[i]=drop[i]=(k>>i)&1; vp_note("%d rows, subset %d",n,k); apop_data *o=apop_data_copy(d); apop_data_rm_rows(d,drop); same(d,o,m,n); use(d); apop_data_free(o); }
/* rows with missing values */
static void listwise(int k){ int f=vp_flags(G_V|G_W|G_M|G_RN|G_CN|G_T|G_TN|G_VN|G_TITLE|G_UNIQ)|G_FIN; if(!(f&(G_V|G_M|G_T))) f|=G_M; int h=vp_int(1,8); apop_data *d=vp_data(f,h,vp_int(1,4),vp_int(1,3)); char m[40]={0}; char *oldnan=apop_opts.nan_string; 
    for(int i=0;i<h;i++) for(int j=0;j<(*d->textsize?d->textsize[1]:0);j++) if(!strcasecmp(d->text[i][j],"nan")) apop_text_set(d,i,j,"q");
    int p=vp_int(0,25); for(int i=0;i<h;i++){ if(d->vector&&vp_chance(p)){ gsl_vector_set(d->vector,i,NAN); m[i]=1;} if(d->weights&&vp_chance(p)){ gsl_vector_set(d->weights,i,NAN); m[i]=1;} if(d->matrix) for(int j=0;j<d->matrix->size2;j++) if(vp_chance(p)){ gsl_matrix_set(d->matrix,i,j,NAN); m[i]=1;} if(*d->textsize) for(int j=0;j<d->textsize[1];j++) if(vp_chance(p)){ apop_text_set(d,i,j,vp_flip()?"NaN":"nan"); m[i]=1;} }
    char *s=vp_ser(d); int in=vp_flip(); vp_note("missing=%s inplace=%d %.3000s",bits(m,h),in,s); apop_data *o=apop_data_copy(d); int all=1; for(int i=0;i<h;i++) if(!m[i]) all=0;
    apop_data *r=in?apop_data_listwise_delete(d,'y'):apop_data_listwise_delete(d); if(all){ CHECK(!r,"rows left"); } else { CHECK(r&&(r==d)==in,"return"); same(r,o,m,h); } if(!in||all){ char *s2=vp_ser(d); CHECK(!strcmp(s,s2),"input changed"); free(s2);} if(r) use(r); if(!in||all) apop_data_free(d); apop_data_free(o); free(s); (void)oldnan; }
int main(int c,char**v){ vp_case cs[]={{"subsets",subsets,126},{"marks",marks,1500},{"func",func,800},{"both",both,300},{"none",none,20},{"listwise",listwise,1500},{0}}; return vp_main(c,v,cs); }

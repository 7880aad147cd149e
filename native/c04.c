#include "vp.h"
static apop_data *mk(int nomat){ int f=vp_flags(G_V|G_W|G_RN|G_CN|G_T|G_TN|G_VN|G_UNIQ)|(nomat?0:G_M); if(nomat&&!(f&G_T)) f|=G_V; if(nomat) f&=~G_CN; return vp_data(f,vp_int(1,7),vp_int(1,6),vp_int(1,3)); }
static int height(apop_data *d){ return d->vector?d->vector->size:d->matrix?d->matrix->size1:*d->textsize; }
/* d holds rows r0..r1 and columns c0..c1 of o (column -1: the vector) */
static void part(apop_data *d,apop_data *o,int r0,int r1,int c0,int c1,int text,const char *w){
    CHECK(d,"%s part absent",w); int v=o->vector&&c0<=-1&&c1>-1; int n=r1-r0;
    if(v){ CHECK(d->vector&&d->vector->size==n,"%s vector size",w); for(int i=0;i<n;i++) CHECK(vp_same(gsl_vector_get(d->vector,i),gsl_vector_get(o->vector,r0+i)),"%s vector %d",w,i); CHECK(!o->names->vector==!d->names->vector&&(!o->names->vector||!strcmp(o->names->vector,d->names->vector)),"%s vector name",w); } else CHECK(!d->vector,"%s has a vector",w);
    int a=c0<0?0:c0; int m=o->matrix?c1-a:0;
    if(m>0){ CHECK(d->matrix&&d->matrix->size1==n&&d->matrix->size2==m,"%s matrix size",w); for(int i=0;i<n;i++) for(int j=0;j<m;j++) CHECK(vp_same(gsl_matrix_get(d->matrix,i,j),gsl_matrix_get(o->matrix,r0+i,a+j)),"%s element %d,%d",w,i,j); } else CHECK(!d->matrix,"%s has a matrix",w);
    if(o->weights){ CHECK(d->weights&&d->weights->size==n,"%s weights",w); for(int i=0;i<n;i++) CHECK(vp_same(gsl_vector_get(d->weights,i),gsl_vector_get(o->weights,r0+i)),"%s weight %d",w,i); } else CHECK(!d->weights,"%s has weights",w);
    CHECK(d->names->rowct==(o->names->rowct?n:0),"%s has %d row names",w,d->names->rowct); for(int i=0;i<d->names->rowct;i++) CHECK(!strcmp(d->names->row[i],o->names->row[r0+i]),"%s row name %d: <%s>",w,i,d->names->row[i]);
    int wantc=o->names->colct?(m>0?m:0):0; CHECK(d->names->colct==wantc,"%s has %d column names, expected %d",w,d->names->colct,wantc); for(int i=0;i<wantc;i++) CHECK(!strcmp(d->names->col[i],o->names->col[a+i]),"%s column name %d: <%s>",w,i,d->names->col[i]);
    if(text&&*o->textsize){ CHECK(d->textsize[0]==n&&d->textsize[1]==o->textsize[1],"%s text size %zu",w,d->textsize[0]); for(int i=0;i<n;i++) for(int j=0;j<o->textsize[1];j++) CHECK(!strcmp(d->text[i][j],o->text[r0+i][j]),"%s text %d,%d: <%s>",w,i,j,d->text[i][j]); CHECK(d->names->textct==o->names->textct,"%s text names",w); for(int i=0;i<o->names->textct;i++) CHECK(!strcmp(d->names->text[i],o->names->text[i]),"%s text name",w); }
}
static void use(apop_data *d){ if(!d) return; if(d->vector) gsl_vector_set_all(d->vector,1); if(d->weights) gsl_vector_set_all(d->weights,2); if(d->matrix) gsl_matrix_set_all(d->matrix,3); for(int i=0;i<*d->textsize;i++) for(int j=0;j<d->textsize[1];j++) apop_text_set(d,i,j,"x"); apop_name_add(d->names,"another",'r'); apop_name_add(d->names,"another",'c'); }
static void fin(apop_data *d,char *s,apop_data **o){ use(o[0]); use(o[1]); char *s2=vp_ser(d); CHECK(!strcmp(s,s2),"input changed: %.1500s",s2); apop_data_free(o[0]); apop_data_free(o[1]); s2=vp_ser(d); CHECK(!strcmp(s,s2),"input changed by freeing the parts"); free(o); apop_data_free(d); free(s); }
static void rows(int k){ apop_data *d=mk(vp_chance(25)); int h=height(d),p=vp_chance(20)?h+vp_int(0,3):vp_int(-2,h); char rc=vp_flip()?'r':'R'; char *s=vp_ser(d); vp_note("split %d %c %.3000s",p,rc,s); apop_data **o=apop_data_split(d,p,rc); int m2=d->matrix?d->matrix->size2:0;
    if(p<=0){ CHECK(!o[0],"first part present"); char *t=vp_ser(o[1]); CHECK(!strcmp(s,t),"not a complete copy: %.1500s",t); } else if(p>=h){ CHECK(!o[1],"second part present"); char *t=vp_ser(o[0]); CHECK(!strcmp(s,t),"not a complete copy: %.1500s",t); }
    else { part(o[0],d,0,p,-1,m2,1,"first"); part(o[1],d,p,h,-1,m2,1,"second"); apop_data *b=apop_data_stack(o[0],o[1],'r'); char *x=vp_sermat(d->matrix),*y=vp_sermat(b->matrix); CHECK(!strcmp(x,y),"stacking the halves: matrix"); x=vp_servec(d->vector);y=vp_servec(b->vector); CHECK(!strcmp(x,y),"stacking the halves: vector"); x=vp_servec(d->weights);y=vp_servec(b->weights); CHECK(!strcmp(x,y),"stacking the halves: weights"); apop_data_free(b); }
    fin(d,s,o); }
static void cols(int k){ apop_data *d=mk(0); int h=height(d),n=d->matrix->size2,p=vp_int(-3,n+3); char rc=vp_flip()?'c':'C'; char *s=vp_ser(d); vp_note("split %d %c %.3000s",p,rc,s); apop_data **o=apop_data_split(d,p,rc);
    if(p<=-1){ CHECK(!o[0],"first part present"); char *t=vp_ser(o[1]); CHECK(!strcmp(s,t),"not a complete copy: %.1500s",t); } else if(p>=n){ CHECK(!o[1],"second part present"); char *t=vp_ser(o[0]); CHECK(!strcmp(s,t),"not a complete copy: %.1500s",t); }
    else { part(o[0],d,0,h,-1,p,0,"first"); part(o[1],d,0,h,p,n,0,"second"); if(p>0){ apop_data *b=apop_data_stack(o[0],o[1],'c'); char *x=vp_sermat(d->matrix),*y=vp_sermat(b->matrix); CHECK(!strcmp(x,y),"stacking the halves: matrix"); x=vp_servec(d->vector);y=vp_servec(b->vector); CHECK(!strcmp(x,y),"stacking the halves: vector"); apop_data_free(b); } }
    fin(d,s,o); }
static void colsnomat(int k){ apop_data *d=mk(1); if(!d->vector){ apop_data_free(d); return; } int h=height(d),p=vp_int(-2,4); char *s=vp_ser(d); vp_note("no matrix: split %d c %.3000s",p,s); apop_data **o=apop_data_split(d,p,'c'); if(p<=-1){ CHECK(!o[0],"first part present"); char *t=vp_ser(o[1]); CHECK(!strcmp(s,t),"not a complete copy: %.1500s",t); } else { part(o[0],d,0,h,-1,0,0,"first"); if(o[1]) CHECK(!o[1]->vector&&!o[1]->matrix,"second part"); } fin(d,s,o); }
static void views(int k){ gsl_matrix *m=gsl_matrix_alloc(7,7); for(int i=0;i<49;i++) m->data[i]=i; int r=vp_int(1,5),c=vp_int(1,5); gsl_matrix_view v=gsl_matrix_submatrix(m,vp_int(0,2),vp_int(0,2),r,c); gsl_vector w=gsl_matrix_column(m,1).vector; gsl_vector_view wv=gsl_vector_subvector(&w,0,r); apop_data d={.matrix=&v.matrix,.vector=vp_flip()?&wv.vector:NULL,.weights=vp_flip()?&wv.vector:NULL}; char rc=vp_flip()?'r':'c'; int p=vp_int(-1,6); vp_note("view %dx%d split %d %c",r,c,p,rc); apop_data **o=apop_data_split(&d,p,rc); int at=rc=='r'?r:c; int lo=rc=='r'?p<=0:p<=-1;
    if(lo) CHECK(!o[0]&&o[1]&&o[1]->matrix->size1==r,"ends"); else if(p>=at) CHECK(o[0]&&!o[1]&&o[0]->matrix->size1==r,"ends"); else for(int i=0;i<r;i++) for(int j=0;j<c;j++){ int sec=rc=='r'?i>=p:j>=p; double x=rc=='r'?gsl_matrix_get(o[sec]->matrix,sec?i-p:i,j):gsl_matrix_get(o[sec]->matrix,i,sec?j-p:j); CHECK(x==gsl_matrix_get(&v.matrix,i,j),"element %d,%d",i,j); }
    apop_data_free(o[0]); apop_data_free(o[1]); free(o); gsl_matrix_free(m); }
static void all(int k){ /* every split point of small shapes */ int h=1+k%5,n=1+(k/5)%5,p=-1+(k/25)%8,rc=k/200; apop_data *d=vp_data(G_V|G_M|G_W|G_RN|G_CN|G_T|G_TN|G_UNIQ,h,n,2); vp_note("%dx%d split %d %c",h,n,p,rc?'c':'r'); apop_data **o=apop_data_split(d,p,rc?'c':'r'); int end=rc?n:h,beg=rc?-1:0; if(p<=beg) CHECK(!o[0]&&o[1],"ends"); else if(p>=end) CHECK(o[0]&&!o[1],"ends"); else if(rc){ part(o[0],d,0,h,-1,p,0,"first"); part(o[1],d,0,h,p,n,0,"second"); } else { part(o[0],d,0,p,-1,n,1,"first"); part(o[1],d,p,h,-1,n,1,"second"); } apop_data_free(o[0]); apop_data_free(o[1]); free(o); apop_data_free(d); }
static void misc(int k){ vp_note("NULL and a bad letter"); apop_data **o=apop_data_split(NULL,1,'r'); CHECK(!o[0]&&!o[1],"NULL"); free(o); apop_data *d=apop_data_alloc(2,2,2); o=apop_data_split(d,1,'x'); CHECK(!o[0]&&!o[1],"bad letter"); free(o); apop_data_free(d); }
int main(int c,char**v){ vp_case cs[]={{"misc",misc,1},{"all",all,400},{"rows",rows,1500},{"cols",cols,1500},{"colsnomat",colsnomat,300},{"views",views,400},{0}}; return vp_main(c,v,cs); }

#include "vp.h"
static apop_data *mk(int uniq){ int f=vp_flags(G_V|G_W|G_RN|G_CN|G_T|G_TN|G_VN|G_TITLE)|(vp_chance(85)?G_M:0)|(uniq?G_UNIQ:0); if(!(f&G_M)) f&=~G_CN; apop_data *d=vp_data(f,vp_int(1,6),vp_int(1,8),vp_int(1,3)); 
    if(vp_chance(20)){ apop_data *p=vp_data(G_M|G_V|G_CN,3,3,0); apop_data_add_page(d,p,"extra"); } return d; }
/* everything but the matrix and the column names, serialised */
static char *rest(apop_data *d){ gsl_matrix *m=d->matrix; int c=d->names?d->names->colct:0; d->matrix=NULL; if(d->names) d->names->colct=0; char *s=vp_ser(d); d->matrix=m; if(d->names) d->names->colct=c; return s; }
/* d must be o with the columns keep[0..n-1] */
static void same(apop_data *d,apop_data *o,int *keep,int n){
    if(!n) CHECK(!d->matrix,"a matrix is left"); else { CHECK(d->matrix&&d->matrix->size1==o->matrix->size1&&d->matrix->size2==n,"matrix size"); for(int i=0;i<d->matrix->size1;i++) for(int j=0;j<n;j++) CHECK(vp_same(gsl_matrix_get(d->matrix,i,j),gsl_matrix_get(o->matrix,i,keep[j])),"element %d,%d",i,j); }
    int want=0; for(int j=0;j<n;j++) if(keep[j]<o->names->colct){ CHECK(want<d->names->colct,"too few names"); CHECK(!strcmp(d->names->col[want],o->names->col[keep[j]]),"column %d is called <%s>, expected <%s>",j,d->names->col[want],o->names->col[keep[j]]); want++; }
    CHECK(d->names->colct==want,"%d names for %d columns",d->names->colct,want);
    char *a=rest(d),*b=rest(o); CHECK(!strcmp(a,b),"other parts changed: %.1200s -> %.1200s",b,a); free(a); free(b);
    for(int j=0;j<want;j++){ int first=0; while(strcasecmp(d->names->col[first],d->names->col[j])) first++; int q=apop_name_find(d->names,d->names->col[j],'c'); CHECK(q>=0&&!strcasecmp(d->names->col[q],d->names->col[j]),"column <%s> found at %d",d->names->col[j],q); CHECK(!strcmp(d->names->col[q],d->names->col[j]),"column <%s> found as <%s>",d->names->col[j],d->names->col[q]);
        if(d->matrix) for(int i=0;i<d->matrix->size1;i++) CHECK(vp_same(apop_data_get(d,i,.colname=d->names->col[j]),gsl_matrix_get(d->matrix,i,q)),"reading column <%s>",d->names->col[j]); }
    apop_name_add(d->names,"a new one",'c'); CHECK(d->names->colct==want+1&&!strcmp(d->names->col[want],"a new one")&&apop_name_find(d->names,"a new one",'c')==want,"adding a name afterwards"); }
static void rm(int k){ apop_data *d=mk(vp_chance(70)); int n=d->matrix?d->matrix->size2:0, p=vp_chance(15)?100:vp_chance(15)?0:vp_int(10,90); int *drop=calloc(n?n:1,sizeof(int)),keep[20],nk=0; vp_sb b={0}; for(int j=0;j<n;j++){ drop[j]=vp_chance(p)?(vp_chance(80)?1:vp_int(2,300)*(vp_flip()?1:-1)):0; if(!drop[j]) keep[nk++]=j; sb(&b,"%d",drop[j]!=0); }
    char *s=vp_ser(d); vp_note("drop=%s %.3000s",b.s?b.s:"",s); apop_data *o=apop_data_copy(d); gsl_matrix *whole=NULL; apop_data_rm_columns(d,drop); same(d,o,keep,nk);
    (void)whole; apop_data_free(d); apop_data_free(o); free(drop); free(s); free(b.s); }
static void prune(int k){ apop_data *d=mk(vp_chance(60)); int n=d->matrix?d->matrix->size2:0; if(!n) { char *l[]={"a",NULL}; vp_note("no matrix"); CHECK(apop_data_prune_columns_base(d,l)==d,"return"); return; }
    /* some columns may be left without a name */
    if(d->names->colct>1 && vp_chance(15)) { d->names->colct--; free(d->names->col[d->names->colct]); }
    apop_data *o=apop_data_copy(d); char *list[30]; int nl=0; char buf[100]; int used[20]={0};
    for(int j=0;j<o->names->colct;j++) if(vp_chance(50)){ list[nl]=strdup(o->names->col[j]); if(vp_chance(30)) for(char *c=list[nl];*c;c++) *c=(*c>='a'&&*c<='z')?*c-32:*c; nl++; }
    if(vp_chance(20)) list[nl++]=strdup("no such column"); for(int a=nl-1;a>0;a--){ int q=vp_int(0,a); char *t=list[a]; list[a]=list[q]; list[q]=t; } list[nl]=NULL;
    vp_sb b={0}; sb(&b,""); for(int j=0;j<nl;j++) sb(&b,"<%s>",list[j]); char *s=vp_ser(o); vp_note("list=%s %.3000s",b.s,s);
    int keep[20],nk=0,taken[30]={0}; for(int j=0;j<n;j++){ int hit=0; if(j<o->names->colct) for(int q=0;q<nl&&!hit;q++) if(!taken[q]&&!strcasecmp(list[q],o->names->col[j])){ taken[q]=1; hit=1; } if(hit) keep[nk++]=j; }
    apop_data *r=apop_data_prune_columns_base(d,list); CHECK(r==d,"return"); same(d,o,keep,nk); (void)buf; (void)used; apop_data_free(d); apop_data_free(o); }
static void macro(int k){ apop_data *d=vp_data(G_M|G_V|G_W,4,5,0); char *nm[]={"mean","median","Variance","mode","skew"}; for(int i=0;i<5;i++) apop_name_add(d->names,nm[i],'c'); apop_data *o=apop_data_copy(d); vp_note("named columns"); apop_data_prune_columns(d,"skew","VARIANCE","mean"); int keep[]={0,2,4}; same(d,o,keep,3); }
static void all(int k){ /* every subset of up to six columns */ int n=1; while(k>=(1<<n)){ k-=1<<n; n++; } apop_data *d=vp_data(G_M|G_V|G_W|G_CN|G_RN|G_UNIQ,2,n,0); for(int i=0;i<n;i++){ gsl_matrix_set(d->matrix,0,i,i); gsl_matrix_set(d->matrix,1,i,10*i);} int drop[8]={0},keep[8],nk=0; for(int j=0;j<n;j++){ drop[j]=(k>>j)&1; if(!drop[j]) keep[nk++]=j; } vp_note("%d columns, subset %d",n,k); apop_data *o=apop_data_copy(d); apop_data_rm_columns(d,drop); same(d,o,keep,nk); apop_data_free(d); apop_data_free(o); }
static void again(int k){ apop_data *d=vp_data(G_M|G_CN|G_UNIQ,3,8,0); apop_data *o=apop_data_copy(d); int ix[8]; for(int i=0;i<8;i++) ix[i]=i; int n=8; vp_note("repeated removal"); while(n){ int drop[8]={0},m=0,nx[8]; for(int j=0;j<n;j++){ drop[j]=vp_chance(30); if(!drop[j]) nx[m++]=ix[j]; } apop_data_rm_columns(d,drop); n=m; memcpy(ix,nx,sizeof ix); apop_data *c=apop_data_copy(d); same(c,o,ix,n); apop_data_free(c); } apop_data_free(d); apop_data_free(o); }
static void nonames(int k){ gsl_matrix *m=gsl_matrix_alloc(2,3); for(int i=0;i<6;i++) m->data[i]=i; apop_data d={.matrix=m}; int drop[]={0,1,0}; vp_note("no names"); apop_data_rm_columns(&d,drop); CHECK(d.matrix->size2==2&&gsl_matrix_get(d.matrix,1,1)==5&&gsl_matrix_get(d.matrix,0,0)==0,"content"); int z[]={1,1}; apop_data_rm_columns(&d,z); CHECK(!d.matrix,"matrix"); apop_data_rm_columns(&d,z); CHECK(!d.matrix,"matrix"); }
int main(int c,char**v){ vp_case cs[]={{"all",all,126},{"rm",rm,2000},{"prune",prune,2000},{"macro",macro,5},{"again",again,200},{"nonames",nonames,1},{0}}; return vp_main(c,v,cs); }

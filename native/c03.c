#include "vp.h"
static void app(vp_sb *b,gsl_vector*v){ if(v) for(int i=0;i<v->size;i++) sb(b,"%.17g,",gsl_vector_get(v,i)); }
static void stackr(int k){
    int r1=vp_int(1,5),r2=vp_int(1,5),c=vp_int(1,4),t=vp_int(1,3); int parts=vp_flags(G_V|G_M|G_W|G_T); int f1=parts, f2=parts; 
    if(vp_chance(30)) f2&=vp_u64(); else if(vp_chance(30)) f1&=vp_u64();
    if(vp_chance(60)){ f1|=G_RN; f2|=G_RN; }
    f1|=vp_flags(G_CN|G_TN|G_VN|G_TITLE); f2|=vp_flags(G_CN|G_TN|G_VN);
    apop_data *a=vp_data(f1,r1,c,t),*b=vp_data(f2,r2,c,t); if(vp_chance(30)) a->more=apop_data_alloc(1);
    char *sa=vp_ser(a),*s1=vp_ser1(a),*s2=vp_ser(b); int inpl=vp_flip(); vp_note("rows inplace=%d %.1500s + %.1500s",inpl,sa,s2);
    size_t v1=a->vector?a->vector->size:0,m1=a->matrix?a->matrix->size1:0,w1=a->weights?a->weights->size:0,t1=a->textsize[0];
    apop_data *a0=apop_data_copy(a);
    apop_data *o=apop_data_stack(a,b,'r',.inplace=inpl?'y':'n'); CHECK(o&&!o->error,"error stacking"); CHECK(inpl==(o==a),"in-place result");
    char *x; x=vp_ser(b); CHECK(!strcmp(x,s2),"second input changed"); free(x); if(!inpl){ x=vp_ser(a); CHECK(!strcmp(x,sa),"first input changed: %.800s",x); free(x);} 
    if(!inpl) CHECK(!o->more,"pages should be ignored");
    /* numbers */
    vp_sb e={0}; sb(&e,""); app(&e,a0->vector); app(&e,b->vector); vp_sb g={0}; sb(&g,""); app(&g,o->vector); CHECK(!strcmp(e.s,g.s),"vector %s, expected %s",g.s,e.s);
    e.n=g.n=0; sb(&e,""); sb(&g,""); app(&e,a0->weights); app(&e,b->weights); app(&g,o->weights); CHECK(!strcmp(e.s,g.s),"weights %s, expected %s",g.s,e.s);
    size_t mr=m1+(b->matrix?b->matrix->size1:0); CHECK((o->matrix?o->matrix->size1:0)==mr,"matrix has %zu rows, expected %zu",o->matrix?o->matrix->size1:0,mr); if(mr) CHECK(o->matrix->size2==c,"matrix width");
    for(int i=0;i<mr;i++) for(int j=0;j<c;j++) CHECK(vp_same(gsl_matrix_get(o->matrix,i,j), i<m1?gsl_matrix_get(a0->matrix,i,j):gsl_matrix_get(b->matrix,i-m1,j)),"matrix element %d,%d",i,j);
    CHECK(o->textsize[0]==t1+b->textsize[0],"text rows"); for(int i=0;i<o->textsize[0];i++) for(int j=0;j<o->textsize[1];j++) CHECK(!strcmp(o->text[i][j], i<t1?a0->text[i][j]:b->text[i-t1][j]),"text %d,%d: %s",i,j,o->text[i][j]);
    /* names: those of the first kept; row names follow */
    for(int i=0;i<a0->names->colct;i++) CHECK(o->names->colct>i&&!strcmp(o->names->col[i],a0->names->col[i]),"col name %d",i);
    CHECK(o->names->colct==a0->names->colct,"number of column names"); 
    for(int i=0;i<a0->names->rowct;i++) CHECK(o->names->rowct>i&&!strcmp(o->names->row[i],a0->names->row[i]),"row name %d",i);
    if((f1&G_RN)&&(v1||m1||t1)&&(f1&(G_V|G_M))) { CHECK(o->names->rowct==a0->names->rowct+b->names->rowct,"number of row names %d",o->names->rowct); for(int i=0;i<b->names->rowct;i++) CHECK(!strcmp(o->names->row[i+a0->names->rowct],b->names->row[i]),"row name %d of the second: %s",i,o->names->row[i+a0->names->rowct]); }
    else if(!(f1&G_RN)&&(f2&G_RN)){}
    if(o!=a) { apop_data_free(o); x=vp_ser(a); CHECK(!strcmp(x,sa),"shared storage"); free(x);} apop_data_free(b); x=vp_ser(a); free(x); apop_data_free(a); apop_data_free(a0); }
static void pad(int k){ /* row names of the second line up with its rows when the first has none */
    int r1=vp_int(1,4),r2=vp_int(1,4); apop_data *a=vp_data(vp_flip()?G_M:G_V,r1,2,0),*b=vp_data((a->matrix?G_M:G_V)|G_RN,r2,2,0); vp_note("pad %d+%d %s",r1,r2,a->matrix?"matrix":"vector"); apop_data *o=apop_data_stack(a,b,'r',.inplace=vp_flip()?'y':'n'); CHECK(o->names->rowct==r1+r2,"row names %d",o->names->rowct); for(int i=0;i<r2;i++) CHECK(!strcmp(o->names->row[r1+i],b->names->row[i]),"row name alignment"); for(int i=0;i<r1;i++) CHECK(!*o->names->row[i],"padding"); }
static void stackc(int k){
    int r=vp_int(1,5),c1=vp_int(1,4),c2=vp_int(1,4),t1=vp_int(1,3),t2=vp_int(1,3); int f1=vp_flags(G_V|G_M|G_W|G_T|G_RN|G_VN|G_TITLE), f2=vp_flags(G_M|G_W|G_T|G_RN|G_VN); if(vp_chance(30)) f2|=G_V; if(vp_chance(70)){ f1|=G_CN; f2|=G_CN; } if(vp_flip()){ f1|=G_TN; f2|=G_TN; }
    if(!(f1&G_M)) f1&=~G_CN; if(!(f2&G_M)) f2&=~G_CN; if(!(f1&G_T)) f1&=~G_TN; if(!(f2&G_T)) f2&=~G_TN;
    apop_data *a=vp_data(f1,r,c1,t1),*b=vp_data(f2,r,c2,t2); char *sa=vp_ser(a),*s2=vp_ser(b); int inpl=vp_flip(); vp_note("cols inplace=%d %.1500s + %.1500s",inpl,sa,s2); apop_data *a0=apop_data_copy(a);
    apop_data *o=apop_data_stack(a,b,'c',.inplace=inpl?'y':'n'); CHECK(o&&!o->error,"error stacking"); CHECK(inpl==(o==a),"in-place result"); char*x; x=vp_ser(b); CHECK(!strcmp(x,s2),"second input changed: %.500s",x); free(x); if(!inpl){ x=vp_ser(a); CHECK(!strcmp(x,sa),"first input changed: %.800s",x); free(x);} 
    int vin=(a0->vector&&b->vector)?1:0; int n1=a0->matrix?c1:0,n2=b->matrix?c2:0; int tot=n1+vin+n2; CHECK((o->matrix?o->matrix->size2:0)==tot,"matrix has %zu columns, expected %d",o->matrix?o->matrix->size2:0,tot);
    for(int i=0;i<r;i++) for(int j=0;j<tot;j++){ double w= j<n1?gsl_matrix_get(a0->matrix,i,j): (vin&&j==n1)?gsl_vector_get(b->vector,i): gsl_matrix_get(b->matrix,i,j-n1-vin); CHECK(vp_same(gsl_matrix_get(o->matrix,i,j),w),"matrix element %d,%d is %g, expected %g",i,j,gsl_matrix_get(o->matrix,i,j),w); }
    gsl_vector *ev=a0->vector?a0->vector:b->vector; CHECK(!ev==!o->vector,"vector presence"); if(ev){ char *p=vp_servec(ev),*q=vp_servec(o->vector); CHECK(!strcmp(p,q),"vector %s expected %s",q,p); }
    char *p=vp_servec(a0->weights),*q=vp_servec(o->weights); CHECK(!strcmp(p,q),"weights");
    CHECK(o->textsize[1]==a0->textsize[1]+b->textsize[1],"text columns"); for(int i=0;i<o->textsize[0];i++) for(int j=0;j<o->textsize[1];j++) CHECK(!strcmp(o->text[i][j], j<a0->textsize[1]?a0->text[i][j]:b->text[i][j-a0->textsize[1]]),"text %d,%d",i,j);
    CHECK(o->names->textct==a0->names->textct+b->names->textct,"text names"); for(int i=0;i<b->names->textct;i++) CHECK(!strcmp(o->names->text[i+a0->names->textct],b->names->text[i]),"text name");
    for(int i=0;i<a0->names->colct;i++) CHECK(o->names->colct>i&&!strcmp(o->names->col[i],a0->names->col[i]),"col name %d",i);
    if((f1&G_CN)&&(f2&G_CN)){ int pre=a0->names->colct + (vin&&0); int ex=a0->names->colct+b->names->colct+vin; CHECK(o->names->colct==ex,"%d column names, expected %d",o->names->colct,ex); for(int i=0;i<b->names->colct;i++) CHECK(!strcmp(o->names->col[i+a0->names->colct+vin],b->names->col[i]),"col name of second"); if(vin) CHECK(!strcmp(o->names->col[a0->names->colct],b->names->vector?b->names->vector:"v"),"name of the vector column"); }
    CHECK(o->names->rowct==a0->names->rowct,"row names changed");
    if(o!=a) apop_data_free(o); apop_data_free(b); apop_data_free(a); apop_data_free(a0); }
static void nulls(int k){ apop_data *a=vp_data(G_V|G_M|G_W|G_T|G_RN|G_CN|G_VN|G_TITLE,vp_int(1,4),vp_int(1,3),vp_int(1,3)); if(vp_chance(40)) a->more=vp_data(G_V|G_M,2,2,0); char*s=vp_ser(a), *s1=vp_ser1(a); vp_note("null %.2000s",s); char p=vp_flip()?'r':'c';
    apop_data *o=apop_data_stack(a,NULL,p); char*x=vp_ser1(o); CHECK(o!=a&&!strcmp(s1,x),"stack with NULL second"); apop_data_free(o); free(x); o=apop_data_stack(NULL,a,p); x=vp_ser1(o); CHECK(o!=a&&!strcmp(s1,x),"stack with NULL first"); apop_data_free(o); CHECK(apop_data_stack(a,NULL,p,'y')==a,"inplace with NULL second"); CHECK(!apop_data_stack(NULL,NULL,p),"two NULLs"); CHECK(!apop_data_stack(a,a,'x'),"bad position accepted"); x=vp_ser(a); CHECK(!strcmp(s,x),"changed"); 
    /* text widths that do not match */
    apop_data *b=vp_data(G_T,2,a->textsize[1]+1,a->textsize[1]+1); o=apop_data_stack(a,b,'r'); CHECK(o->error=='d',"text width mismatch not flagged"); apop_data_free(o); apop_data_free(b); apop_data_free(a); }
static void self(int k){ apop_data *a=vp_data(G_V|G_M|G_RN|G_CN,vp_int(1,4),vp_int(1,3),0); vp_note("self %zux%zu",a->matrix->size1,a->matrix->size2); apop_data *o=apop_data_stack(a,a,'r'); int r=a->matrix->size1; CHECK(o->matrix->size1==2*r&&o->names->rowct==2*r,"size"); for(int i=0;i<r;i++) CHECK(vp_same(apop_data_get(o,i,0),apop_data_get(o,i+r,0))&&!strcmp(o->names->row[i],o->names->row[i+r]),"self stack"); apop_data_free(o); apop_data_free(a);}
int main(int c,char**v){ vp_case cs[]={{"stackr",stackr,1500},{"stackc",stackc,1500},{"pad",pad,100},{"nulls",nulls,100},{"self",self,50},{0}}; return vp_main(c,v,cs); }

#include "vp.h"
static apop_data *mk(int *rp,int *cp){ int r=vp_int(1,6),c=vp_int(1,5); int f=vp_flags(G_V|G_M)|G_RN|G_CN|vp_flags(G_W|G_T|G_VN)|G_UNIQ; apop_data *d=vp_data(f,r,c,2); *rp=r;*cp=c; return d; }
static double *cell(apop_data *d,int r,int c){ if(c==-1||(c==0&&!d->matrix&&d->vector)) return (d->vector&&r>=0&&r<d->vector->size)? d->vector->data+r*d->vector->stride:NULL; return (d->matrix&&r>=0&&c>=0&&r<d->matrix->size1&&c<d->matrix->size2)? d->matrix->data+r*d->matrix->tda+c:NULL; }
static void hush(const char*a,const char*b,int c,int d){}
static void check_at(apop_data *top,apop_data *d,int r,int c,const char *rn,const char *cn,const char *pg,int expr,int expc){
    double *p=(expr==-2||expc==-2||!d)?NULL:cell(d,expr,expc);
    char *s=vp_ser(top);
    gsl_error_handler_t *h=gsl_set_error_handler(hush);
    /* reading */
    double g = apop_data_get(top,.row=r,.col=c,.rowname=rn,.colname=cn,.page=pg);
    if(p) CHECK(vp_same(g,*p),"get gave %g, the element is %g",g,*p);
    else if (!d||expr==-2||expc==-2||(expc==-1?!d->vector:!d->matrix && !(expc==0&&d->vector))) CHECK(isnan(g),"get of a missing element gave %g",g);
    double *q = apop_data_ptr(top,.row=r,.col=c,.rowname=rn,.colname=cn,.page=pg);
    CHECK(q==p,"address %p of a %s element",(void*)q,p?"present":"missing");
    char *s2=vp_ser(top); CHECK(!strcmp(s,s2),"reading changed the data"); free(s2);
    CHECK(gsl_set_error_handler(hush)==hush,"the error handler was replaced");
    /* writing */
    double val=12345+vp_int(0,99), old=p?*p:0; int rc=apop_data_set(top,.row=r,.col=c,.val=val,.rowname=rn,.colname=cn,.page=pg);
    if(p){ CHECK(rc==0,"set returned %d",rc); CHECK(*p==val,"set did not store the value"); *p=old; }
    else CHECK(rc!=0,"set of a missing element returned 0");
    s2=vp_ser(top); CHECK(!strcmp(s,s2),"set changed something else: %.800s",s2); free(s2); free(s);
    gsl_set_error_handler(h); }
static void bypos(int k){ int R,C; apop_data *d=mk(&R,&C); int r=vp_int(0,R+1), c=vp_int(-1,C+1); char *s=vp_ser(d); vp_note("(%d,%d) in %.2000s",r,c,s); free(s);
    check_at(d,d,r,c,NULL,NULL,NULL,r,c); apop_data_free(d); }
static void byname(int k){ int R,C; apop_data *d=mk(&R,&C); int er=vp_int(0,R-1), ec=vp_int(d->names->vector?-1:0,C-1); char rn[200],cn[200]; strcpy(rn,d->names->row[er]); strcpy(cn,ec==-1?d->names->vector:d->names->col[ec]);
    if(vp_flip()) for(char*p=rn;*p;p++) *p=toupper(*p);
    if(vp_flip()) for(char*p=cn;*p;p++) *p=vp_flip()?toupper(*p):tolower(*p);
    if(vp_chance(15)){ strcpy(rn,"no such row"); er=-2; } if(vp_chance(15)){ strcpy(cn,"no such column"); ec=-2; }
    int mode=vp_int(0,2); if(ec==-1 && !*cn) mode=0; char *s=vp_ser(d); vp_note("mode %d row <%s> col <%s> in %.2000s",mode,rn,cn,s); free(s);
    if(mode==0) { int c=vp_int(-1,C-1); check_at(d,d,0,c,rn,NULL,NULL,er,c);} else if(mode==1){ int r=vp_int(0,R-1); check_at(d,d,r,0,NULL,cn,NULL,r,ec);} else check_at(d,d,0,0,rn,cn,NULL,er,ec);
    apop_data_free(d); }
static void bypage(int k){ int R=vp_int(2,5),C=vp_int(1,4); apop_data *pg[4]; char *tt[]={"Main page","second","THIRD","Second"}; 
    for(int i=0;i<4;i++){ pg[i]=vp_data(G_V|G_M|vp_flags(G_W|G_VN),R,C,0); int o=vp_int(0,R-1), oc=vp_int(0,C-1); char b[30];
        for(int r=0;r<R;r++){ sprintf(b,"row%d",(r+o)%R); apop_name_add(pg[i]->names,b,'r'); } for(int c=0;c<C;c++){ sprintf(b,"Col%d",(c+oc)%C); apop_name_add(pg[i]->names,b,'c'); }
        if(i) apop_data_add_page(pg[0],pg[i],tt[i]); else apop_name_add(pg[0]->names,tt[0],'h'); }
    int w=vp_int(0,4); char *ask[]={"main PAGE","second","third","SECOND","none such"}; int hit[]={0,1,2,1,-1}; apop_data *t=hit[w]>=0?pg[hit[w]]:NULL; int r=vp_int(0,R+1),c=vp_int(-1,C+1); char rn[30],cn[30]; sprintf(rn,"Row%d",vp_int(0,R-1)); sprintf(cn,"COL%d",vp_int(0,C-1)); char *s=vp_ser(pg[0]); vp_note("page %s (%d,%d) %s %s in %.2000s",ask[w],r,c,rn,cn,s); free(s);
    int er=-2,ec=-2; if(t) for(int i=0;i<R;i++) if(!strcasecmp(t->names->row[i],rn)) er=i; if(t) for(int i=0;i<C;i++) if(!strcasecmp(t->names->col[i],cn)) ec=i;
    check_at(pg[0],t,r,c,NULL,NULL,ask[w],r,c); check_at(pg[0],t,0,c,rn,NULL,ask[w],er,c); check_at(pg[0],t,r,0,NULL,cn,ask[w],r,ec); check_at(pg[0],t,0,0,rn,cn,ask[w],er,ec); check_at(pg[0],t,0,0,"nope",NULL,ask[w],-2,0); check_at(pg[0],t,0,0,NULL,"nope",ask[w],0,-2); apop_data_free(pg[0]); }
static void stride(int k){ int R=vp_int(2,6),C=vp_int(2,5); apop_data *d=vp_data(G_M,R,C,0), *v=apop_data_alloc(); int c=vp_int(0,C-1); gsl_vector col=gsl_matrix_column(d->matrix,c).vector; gsl_matrix sub=gsl_matrix_submatrix(d->matrix,0,1,R,C-1).matrix; v->vector=&col; if(vp_flip()) v->matrix=&sub; int r=vp_int(0,R); int cc=vp_int(-1,C-1); vp_note("column %d of %dx%d, element (%d,%d)",c,R,C,r,cc); check_at(v,v,r,cc,NULL,NULL,NULL,r,cc); v->vector=NULL; v->matrix=NULL; apop_data_free(v); apop_data_free(d); }
static void defaults(int k){ int R,C; apop_data *d=mk(&R,&C); vp_note("defaults v%d m%d",!!d->vector,!!d->matrix); double *p=cell(d,0,0); CHECK(vp_same(apop_data_get(d),p?*p:NAN),"default get"); CHECK(apop_data_ptr(d)==p,"default ptr"); CHECK(isnan(apop_data_get(NULL))&&!apop_data_ptr(NULL)&&apop_data_set(NULL,0,0,1)!=0,"NULL data"); 
    /* a failed set does not make the next good one fail, and the user's handler survives */
    gsl_error_handler_t *h=gsl_set_error_handler(hush); if(p){ apop_data_set(d,1000,0,1); CHECK(apop_data_set(d,0,0,3)==0&&*p==3,"set after a failed set"); apop_data_set(d,0,77,1); apop_data_set(d,0,-1,1); } CHECK(gsl_set_error_handler(h)==hush,"error handler not restored"); apop_data_free(d);}
static void view(int k){ int R=vp_int(2,6),C=vp_int(2,5); apop_data *d=vp_data(G_V|G_M,R,C,0); int r=vp_int(0,R-1); vp_note("view of row %d in %dx%d",r,R,C); for(int c=-1;c<C;c++) CHECK(vp_same(apop_data_get(Apop_r(d,r),0,c),*cell(d,r,c)),"get through a row view"); int c=vp_int(0,C-1); for(int i=0;i<R;i++) CHECK(vp_same(apop_data_get(Apop_c(d,c),i),*cell(d,i,c)),"get through a column view"); apop_data_set(Apop_r(d,r),0,c,99); CHECK(*cell(d,r,c)==99,"set through view"); apop_data_free(d);}
static void named(int k){ apop_data *d=apop_data_alloc(); int n=vp_int(1,8); double v[8]; char nm[8][20]; for(int i=0;i<n;i++){ v[i]=vp_num(); char b[20]; sprintf(nm[i],"%s%d",vp_word(b),i); apop_data_add_named_elmt(d,nm[i],v[i]); } vp_note("%d named elements first %s",n,nm[0]); CHECK(d->vector->size==n&&d->names->rowct==n,"size"); for(int i=0;i<n;i++) CHECK(vp_same(apop_data_get(d,.rowname=nm[i]),v[i])&&vp_same(d->vector->data[i],v[i]),"named element %d",i); apop_data_free(d);}
int main(int c,char**v){ vp_case cs[]={{"bypos",bypos,1500},{"byname",byname,1200},{"bypage",bypage,500},{"stride",stride,300},{"defaults",defaults,100},{"view",view,200},{"named",named,200},{0}}; return vp_main(c,v,cs); }

#include "vp.h"
/* expanding counts gives each rank as often as its count, row by row */
static void expand(int k){ int r=vp_int(1,4), c=vp_int(1,6); apop_data *d=apop_data_alloc(vp_chance(20)?r:0,r,c); if(d->vector) gsl_vector_set_all(d->vector,99); int tot=0; double e[400]; int zero=vp_chance(6); for(int i=0;i<r;i++) for(int j=0;j<c;j++){ int n=zero?0:vp_chance(35)?0:vp_int(0,9); gsl_matrix_set(d->matrix,i,j,n); for(int q=0;q<n;q++) e[tot++]=j; } char *s0=vp_ser(d); vp_note("expand %s",s0);
    apop_data *o=apop_data_rank_expand(d); char *s1=vp_ser(d); CHECK(!strcmp(s0,s1),"input changed"); free(s0); free(s1);
    if(!tot){ CHECK(!o,"something from no counts"); }
    else { CHECK(o&&o->vector&&(int)o->vector->size==tot,"%d entries for %d counted",o&&o->vector?(int)o->vector->size:-1,tot); for(int i=0;i<tot;i++) CHECK(gsl_vector_get(o->vector,i)==e[i],"entry %d is %g, not %g",i,gsl_vector_get(o->vector,i),e[i]);
        /* and back: the counts of every rank over all the rows */
        apop_data *b=apop_data_rank_compress(o,.min_bins=c-1); CHECK(b&&b->matrix&&(int)b->matrix->size2==c&&b->matrix->size1==1&&!b->vector,"shape of the counts"); for(int j=0;j<c;j++){ double w=0; for(int i=0;i<r;i++) w+=gsl_matrix_get(d->matrix,i,j); CHECK(gsl_matrix_get(b->matrix,0,j)==w,"rank %d counted %g times, not %g",j,gsl_matrix_get(b->matrix,0,j),w); } apop_data_free(b); apop_data_free(o); }
    apop_data_free(d); CHECK(!apop_data_rank_expand(NULL),"NULL"); d=apop_data_alloc(3); gsl_vector_set_all(d->vector,2); CHECK(!apop_data_rank_expand(d),"no matrix"); apop_data_free(d); }
static void compress(int k){ int shape=vp_int(1,3), n=vp_int(1,9), r=vp_int(1,5), c=vp_int(1,4), hi=vp_int(0,12), mb=vp_chance(40)?-1:vp_int(0,15); if(shape==3) r=n; apop_data *d=apop_data_alloc(shape&1?n:0,shape&2?r:0,shape&2?c:0); double w[20]={0}; int top=mb>0?mb:0;
    if(shape&1) for(int i=0;i<n;i++){ int x=vp_int(0,hi); gsl_vector_set(d->vector,i,x); w[x]++; if(x>top) top=x; } if(shape&2) for(int i=0;i<r;i++) for(int j=0;j<c;j++){ int x=vp_int(0,hi); gsl_matrix_set(d->matrix,i,j,x); w[x]++; if(x>top) top=x; }
    if(shape==3&&vp_flip()){ gsl_vector *v=gsl_vector_alloc(n+2); for(int i=0;i<n+2;i++){ int x=i<n?(int)gsl_vector_get(d->vector,i):vp_int(0,hi); gsl_vector_set(v,i,x); if(i>=n){ w[x]++; if(x>top) top=x; } } gsl_vector_free(d->vector); d->vector=v; }
    char *s0=vp_ser(d); vp_note("compress min_bins=%d %s",mb,s0); apop_data *o=mb<0?apop_data_rank_compress(d):apop_data_rank_compress(d,.min_bins=mb); char *s1=vp_ser(d); CHECK(!strcmp(s0,s1),"input changed"); free(s0); free(s1); CHECK(o&&o->matrix&&!o->vector&&o->matrix->size1==1,"shape"); CHECK((int)o->matrix->size2==top+1,"%zu bins for ranks up to %d",o->matrix->size2,top);
    for(int j=0;j<=top;j++) CHECK(gsl_matrix_get(o->matrix,0,j)==w[j],"rank %d counted %g times, not %g",j,gsl_matrix_get(o->matrix,0,j),w[j]); apop_data *x=apop_data_rank_expand(o); int tot=0; for(int j=0;j<=top;j++) tot+=w[j]; CHECK(x&&(int)x->vector->size==tot,"expanding again"); int p=0; for(int j=0;j<=top;j++) for(int q=0;q<w[j];q++,p++) CHECK(gsl_vector_get(x->vector,p)==j,"expanding again: entry %d",p); apop_data_free(x); apop_data_free(o); apop_data_free(d); CHECK(!apop_data_rank_compress(NULL),"NULL"); }
int main(int c,char**v){ vp_case cs[]={{"expand",expand,4000},{"compress",compress,6000},{0}}; return vp_main(c,v,cs); }

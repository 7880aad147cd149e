#include "vp.h"
int apop_vtable_add(char const *tabname, void *fn_in, unsigned long hash); void *apop_vtable_get(char const *tabname, unsigned long hash); int apop_vtable_drop(char const *tabname, unsigned long hash);
static char pool[4000];
typedef struct {int tab; unsigned long key; void *fn;} ent;
static char *names[]={"alpha","beta","gamma_tab","delta-x","e","alphabet","ALPHA","tab 1","tab 2","a","b","zz9"};
/* model based: every reply and, after every operation, every key of every table */
static void history(int k){ ent m[400]; int n=0; static int uniq; char nm[12][40]; int nt=vp_int(1,12), nk=vp_int(1,10); for(int i=0;i<12;i++) sprintf(nm[i],"%s/%d",names[i],uniq); uniq++;
    unsigned long keys[10]; for(int i=0;i<nk;i++){ keys[i]= vp_chance(20)? (unsigned long)i : i&&vp_chance(25)? keys[0]^(1UL<<vp_int(0,63)) : vp_u64(); for(int j=0;j<i;j++) if(keys[j]==keys[i]) keys[i]=vp_u64(); } int steps=vp_int(5,40); vp_note("history %d: %d tables %d keys %d steps first key %lx",k,nt,nk,steps,keys[0]);
    char log[3000]=""; for(int s=0;s<steps;s++){ int t=vp_int(0,nt-1), q=vp_int(0,nk-1), op=vp_int(0,9), at=-1; for(int i=0;i<n;i++) if(m[i].tab==t&&m[i].key==keys[q]) at=i; char *tn=strdup(nm[t]);
        if(op<5){ void *f=vp_chance(10)?NULL:pool+vp_int(1,3999); sprintf(log+strlen(log),"add(%d,%d) ",t,q); int r=apop_vtable_add(nm[t],f,keys[q]); CHECK(r==0,"add returned %d after %s",r,log); if(at<0) m[n++]=(ent){t,keys[q],f}; }
        else if(op<8){ sprintf(log+strlen(log),"drop(%d,%d) ",t,q); int r=apop_vtable_drop(tn,keys[q]); CHECK(r==(at<0),"drop returned %d after %s",r,log); if(at>=0){ for(int i=at;i<n-1;i++) m[i]=m[i+1]; n--; } }
        free(tn);
        for(int t2=0;t2<nt;t2++) for(int q2=0;q2<nk;q2++){ void *want=NULL; for(int i=0;i<n;i++) if(m[i].tab==t2&&m[i].key==keys[q2]) want=m[i].fn; char *c=strdup(nm[t2]); void *got=apop_vtable_get(c,keys[q2]); free(c); CHECK(got==want,"table %d key %d: got %p, registered %p, after %s",t2,q2,got,want,log); }
        { char nt[40]; sprintf(nt,"maybe%d",vp_int(0,30)+100*k); if(vp_chance(15)){ CHECK(!apop_vtable_get(nt,12345),"never registered"); sprintf(nt,"other%d_%d",k,s); apop_vtable_add(nt,pool+5,12345); } } CHECK(!apop_vtable_get("no such table",keys[0]),"unknown table"); CHECK(!apop_vtable_get(nm[0],0x123456789abcdefUL+k),"unknown key"); CHECK(apop_vtable_drop("no such table",keys[0])==1,"drop from unknown table"); } }
static void big(int k){ static int u; char t[50]; sprintf(t,"big%d",u++); int n=vp_int(20,200); unsigned long base=vp_u64(); vp_note("%d keys %lx",n,base); int gone[200]={0}; for(int i=0;i<n;i++) apop_vtable_add(t,pool+1+i,base+i*7919); for(int r=0;r<n;r++){ int i=vp_int(0,n-1); int x=apop_vtable_drop(t,base+i*7919); CHECK(x==gone[i],"drop %d returned %d",i,x); gone[i]=1; if(r%10==0) for(int j=0;j<n;j++) CHECK(apop_vtable_get(t,base+j*7919)==(gone[j]?NULL:pool+1+j),"key %d after dropping",j); if(vp_chance(30)){ apop_vtable_add(t,pool+1+i,base+i*7919); gone[i]=0; } } for(int j=0;j<n;j++) CHECK(apop_vtable_get(t,base+j*7919)==(gone[j]?NULL:pool+1+j),"key %d at the end",j); }
static void manytables(int k){ static int u; u++; int n=vp_int(5,60); vp_note("%d tables round %d",n,u); char nm[60][40]; for(int i=0;i<n;i++){ sprintf(nm[i],"mt%d_%d",u,i); apop_vtable_add(nm[i],pool+i+1,77); apop_vtable_add(nm[i],pool+i+500,78); } int d=vp_int(0,n-1); apop_vtable_drop(nm[d],77); for(int i=0;i<n;i++){ CHECK(apop_vtable_get(nm[i],77)==(i==d?NULL:pool+i+1),"table %d",i); CHECK(apop_vtable_get(nm[i],78)==pool+i+500,"table %d second key",i); } }
static void blocked(int k){ static int u; char t[50]; sprintf(t,"bl%d",u++); unsigned long h=vp_u64(); vp_note("blocked %lx",h); apop_vtable_add(t,pool+1,h); apop_vtable_add(t,pool+2,h); CHECK(apop_vtable_get(t,h)==pool+1,"a key already registered was replaced"); CHECK(apop_vtable_drop(t,h)==0,"drop"); CHECK(!apop_vtable_get(t,h),"still there"); apop_vtable_add(t,NULL,h); CHECK(!apop_vtable_get(t,h),"blocked"); apop_vtable_add(t,pool+3,h); CHECK(!apop_vtable_get(t,h),"a blocked key was replaced"); CHECK(apop_vtable_drop(t,h)==0&&apop_vtable_drop(t,h)==1,"unblock"); apop_vtable_add(t,pool+3,h); CHECK(apop_vtable_get(t,h)==pool+3,"after unblocking"); }
int main(int c,char**v){ vp_case cs[]={{"history",history,600},{"big",big,60},{"manytables",manytables,20},{"blocked",blocked,100},{0}}; return vp_main(c,v,cs); }

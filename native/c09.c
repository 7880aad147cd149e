#include "vp.h"
#include <regex.h>
typedef struct {apop_data *p[60]; char *title[60]; char *ser[60]; int n;} pl;
static const char *TT[]={"","<Info>","<info>","Aa","aA","AA","aa","a","aab","Page one","page ONE","<Covariance>","x.y","xzy","%s%d"};
static char *atitle(char *b){ if(vp_chance(85)) strcpy(b,TT[vp_int(0,14)]); else vp_str(b); return b; }
static char *lo(const char*s){ static char b[2][400]; static int w; w=!w; int i; for(i=0;s[i];i++) b[w][i]=tolower((unsigned char)s[i]); b[w][i]=0; return b[w]; }
static int match(const char *t,const char *w,char m){ if(!t) return 0; if(m=='e') return !strcmp(t,w); if(m=='c') return !strcmp(lo(t),lo(w)); regex_t r; regcomp(&r,w,REG_EXTENDED|REG_ICASE); int x=!regexec(&r,t,0,NULL,0); regfree(&r); return x; }
static apop_data *mk(void){ apop_data *d=vp_data(vp_flags(G_V|G_M|G_W|G_T|G_RN|G_CN),vp_int(0,3),vp_int(0,3),vp_int(0,2)); return d; }
static void same(pl *l,const char *log){ apop_data *d=l->p[0]; for(int i=0;i<l->n;i++,d=d->more){ CHECK(d==l->p[i],"page %d is not the page put there, after %s",i,log); const char *t=d->names?d->names->title:NULL; CHECK(!t==!l->title[i] && (!t||!strcmp(t,l->title[i])),"page %d titled <%s>, expected <%s>, after %s",i,t?t:"NULL",l->title[i]?l->title[i]:"NULL",log); char *s=vp_ser1(d); char *q=strstr(s,"title=<"); char *e=q?strstr(q,";col="):NULL; if(q&&e) memmove(q,e,strlen(e)+1); CHECK(!strcmp(s,l->ser[i]),"page %d contents changed to %s, expected %s, after %s",i,s,l->ser[i],log); free(s); } CHECK(!d,"extra pages after %s",log); }
static void put(pl *l,apop_data *d){ int i=l->n++; l->p[i]=d; l->title[i]=d->names&&d->names->title?strdup(d->names->title):NULL; char *s=vp_ser1(d); char *q=strstr(s,"title=<"); char *e=q?strstr(q,";col="):NULL; if(q&&e) memmove(q,e,strlen(e)+1); l->ser[i]=s; }
static void history(int k){ pl l={.n=0}; char log[9000]="", b[400]; apop_data *d=mk(); if(vp_flip()) apop_name_add(d->names,atitle(b),'h'); put(&l,d); int steps=vp_int(2,25); vp_note("history %d steps %d draw %d",k,steps,(int)(vp_u64()%100000));
    for(int s=0;s<steps && strlen(log)<8000;s++){ int op=vp_int(0,9);
        if(op<4 && l.n<40){ apop_data *p=mk(); int how=vp_int(0,4); char old[400]=""; if(vp_flip()){ apop_name_add(p->names,atitle(old),'h'); }
            if(how==0 && !p->names->title && !p->names->rowct&&!p->names->colct){ apop_name_free(p->names); p->names=NULL; }
            apop_data *r; char t[400]; if(how==1){ r=apop_data_add_page(vp_flip()?l.p[0]:l.p[vp_int(0,l.n-1)],p,NULL); strcpy(t,"-"); } else if(how==2 && p->names && p->names->title){ strcpy(t,p->names->title); r=apop_data_add_page(l.p[0],p,p->names->title); } else { atitle(t); r=apop_data_add_page(vp_flip()?l.p[0]:l.p[vp_int(0,l.n-1)],p,t); }
            sprintf(log+strlen(log),"add(<%s>,%d) ",t,how); CHECK(r==p,"add did not return the page, after %s",log); CHECK(p->names,"no names"); if(how!=1) CHECK(p->names->title&&!strcmp(p->names->title,t),"title not set, after %s",log); else CHECK(old[0]==0||!strcmp(p->names->title,old),"title lost"); put(&l,p); }
        else if(op<8){ char w[400]; atitle(w); char m="cer"[vp_int(0,2)]; if(m=='r'&&!*w) m='c'; int from=vp_chance(70)?0:vp_int(0,l.n-1); int deflt=vp_chance(15); if(deflt){ strcpy(w,"<Info>"); m='c'; } int want=-1; for(int i=from;i<l.n&&want<0;i++) if(match(l.title[i],w,m)) want=i;
            apop_data *g= deflt? apop_data_get_page(l.p[from]) : m=='c'&&vp_flip()? apop_data_get_page(l.p[from],w) : apop_data_get_page(l.p[from],w,.match=m); CHECK(g==(want<0?NULL:l.p[want]),"page <%s> (%c) from %d: got page %p, expected number %d, after %s",w,m,from,(void*)g,want,log); }
        else { char w[400]; atitle(w); int deflt=vp_chance(15); if(deflt) strcpy(w,"<Info>"); int fr=vp_flip(); int hit=-1; for(int i=1;i<l.n&&hit<0;i++) if(match(l.title[i],w,'c')) hit=i; sprintf(log+strlen(log),"rm(<%s>,%c) ",w,fr?'y':'n');
            apop_data *keep=hit>0&&!fr?l.p[hit]:NULL; apop_data *r= deflt&&fr? apop_data_rm_page(l.p[0]) : deflt? apop_data_rm_page(l.p[0],.free_p='n') : apop_data_rm_page(l.p[0],w,fr?'y':'n'); CHECK(r==keep,"removal returned the wrong page, after %s",log); if(keep) CHECK(!keep->more,"the removed page still has followers, after %s",log);
            if(hit>0){ for(int i=hit;i<l.n-1;i++){ l.p[i]=l.p[i+1]; l.title[i]=l.title[i+1]; l.ser[i]=l.ser[i+1]; } l.n--; } if(keep) apop_data_free(keep); }
        same(&l,log); }
    apop_data_free(l.p[0]); }
static void nulls(int k){ vp_note("nulls"); CHECK(!apop_data_get_page(NULL,"a"),"get"); CHECK(!apop_data_rm_page(NULL,"a"),"rm"); CHECK(!apop_data_add_page(NULL,NULL,"a"),"add"); apop_data *d=apop_data_alloc(1); CHECK(apop_data_add_page(NULL,d,"t")==d&&!strcmp(d->names->title,"t"),"add to nothing"); CHECK(!apop_data_add_page(d,NULL,"a")&&!d->more,"add nothing"); CHECK(!apop_data_get_page(d,"t",.match='z'),"unknown match"); apop_data_free(d); }
int main(int c,char**v){ vp_case cs[]={{"history",history,2500},{"nulls",nulls,1},{0}}; return vp_main(c,v,cs); }

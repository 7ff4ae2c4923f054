/* replay runtime: executes a contract harness on the compiled real code */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <complex.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/stat.h>
typedef double _Complex cx;
struct hent { const char *name; void (*f)(void); };
extern struct hent cv_table[];

#define MAXIN 4096
static struct { char name[64]; char kind; double re, im; double lo, hi; } in[MAXIN]; static int nin;
static struct { char name[64]; double re, im; int set; } ov[MAXIN]; static int nov;
static struct { char base[64]; int n; } cnt[MAXIN]; static int ncnt;
static uint64_t seed; static int special, thorough;
static char pv1[64], pv2[64]; static double pd1, pd2;
#define MAXD 8192
static struct { char v1[64], v2[64]; cx f, d; } dd[MAXD]; static int nd; static int mode; /*0 collect 1 perturb 2 final*/
static cx pf[MAXD];
static sigjmp_buf jb; static int inh; static int exit_ok; static double tolr, tola; static int nfail, nobl, usesdiff; static int symbolicnan;
static const char *curh; static FILE *rep; static char home[4096]; static int usedfs, cap;
extern int optind;
static char lastname[128];

static uint64_t mix(uint64_t h){ h ^= h>>33; h*=0xff51afd7ed558ccdULL; h^=h>>33; h*=0xc4ceb9fe1a85ec53ULL; h^=h>>33; return h; }
static uint64_t hs(const char *s, uint64_t k){ uint64_t h = mix(seed*0x9E3779B97F4A7C15ULL + k + 1); for(;*s;s++) h = mix(h ^ (uint64_t)(unsigned char)*s*0x100000001b3ULL); return h; }
static double u01(const char *s, uint64_t k){ return (hs(s,k)>>11)*(1.0/9007199254740992.0); }
static int findin(const char *n){ for(int i=0;i<nin;i++) if(!strcmp(in[i].name,n)) return i; return -1; }
static void uniq(const char *b, char *out){
    int i; for(i=0;i<ncnt;i++) if(!strcmp(cnt[i].base,b)) break;
    if(i==ncnt){ snprintf(cnt[i].base,64,"%s",b); cnt[i].n=0; ncnt++; }
    if(cnt[i].n==0) snprintf(out,64,"%s",b); else snprintf(out,64,"%s@%d",b,cnt[i].n);
    cnt[i].n++;
}
static double draw(const char *n, double lo, double hi, int pos, int part){
    if(special && u01(n,100+part) < 0.25){
        double c = u01(n,200+part);
        if(c<0.2 && lo<=0 && hi>=0 && !pos) return 0;
        if(c<0.4) return lo; if(c<0.6) return hi;
        if(c<0.8 && nin>0){ int k = (int)(u01(n,300+part)*nin); double v = in[k].re; if(in[k].kind!='i' && v>=lo && v<=hi) return v; }
        double v = floor(lo + (hi-lo)*u01(n,400+part)+0.5); if(v>=lo && v<=hi && !(pos&&v<=0)) return v;
    }
    double x = u01(n,part);
    if(pos && lo>0 && hi/lo>50 && u01(n,500)<0.5) return lo*pow(hi/lo,x);
    return lo + (hi-lo)*x;
}
static int put(const char *b, char kind, double lo, double hi, int pos){
    char n[64]; uniq(b,n);
    int i = findin(n);
    if(i<0){
        i = nin++; snprintf(in[i].name,64,"%s",n); in[i].kind=kind; in[i].lo=lo; in[i].hi=hi;
        int j; for(j=0;j<nov;j++) if(!strcmp(ov[j].name,n)) break;
        if(j<nov){ in[i].re=ov[j].re; in[i].im=ov[j].im; }
        else if(kind=='i'||kind=='n'){ double k = lo + floor(u01(n,0)*(hi-lo+1)); if(k>hi) k=hi; in[i].re=k; in[i].im=0; }
        else { in[i].re = draw(n,lo,hi,pos,0); in[i].im = kind=='c'? draw(n,lo,hi,0,1) : 0; }
    }
    return i;
}
static double pert(int i){ double v = in[i].re; if(mode==1){ if(!strcmp(in[i].name,pv1)) v+=pd1; if(!strcmp(in[i].name,pv2)) v+=pd2; } return v; }
double cv_real(const char*n,double lo,double hi){ return pert(put(n,'r',lo,hi,0)); }
static void rej(void){ siglongjmp(jb,2); }
double cv_pos(const char*n,double lo,double hi){ int i=put(n,'r',lo,hi,1); double v=pert(i); if(!(v>0)) rej(); return v; }
cx cv_cplx(const char*n,double lo,double hi){ int i=put(n,'c',lo,hi,0); return pert(i)+in[i].im*(cx)_Complex_I; }
int cv_choose(const char*n,int k){ return (int)in[put(n,'i',0,k-1,0)].re; }
int cv_size(const char*n,int lo,int hi,int hit){ return (int)in[put(n,'i',lo,thorough&&hit>hi?hit:hi,0)].re; }
long cv_nat(const char*n,long lo,long hi){ long v=(long)in[put(n,'n',lo,hi,0)].re; if(v<lo||v>hi) rej(); return v; }
void cv_assume(int c){ if(!c) rej(); }
void cv_assume_lt(double a,double b){ if(!(a<b)) rej(); }
void cv_assume_le(double a,double b){ if(!(a<=b)) rej(); }
void cv_assume_eq(cx a,cx b){ double d=cabs(a-b); if(!(d<=1e-12*(cabs(a)+cabs(b)))) rej(); }
void cv_assume_ne(cx a,cx b){ if(a==b) rej(); }
static void report(const char *name, cx a, cx b, const char *why){
    if(nfail++ < 3){
        fprintf(rep,"FAIL {\"harness\":\"%s\",\"obligation\":\"%s\",\"why\":\"%s\",\"lhs\":[%.17g,%.17g],\"rhs\":[%.17g,%.17g],\"special\":%d,\"inputs\":{",curh,name,why,creal(a),cimag(a),creal(b),cimag(b),special);
        for(int i=0;i<nin;i++) fprintf(rep,"%s\"%s\":[%.17g,%.17g]",i?",":"",in[i].name,in[i].re,in[i].im);
        fprintf(rep,"}}\n"); fflush(rep);
    }
}
void cv_eq_(const char*n,cx a,cx b){
    if(mode!=2) return; nobl++;
    double d=cabs(a-b), m=cabs(a)>cabs(b)?cabs(a):cabs(b);
    if(isnan(d)||isinf(d)){ if(a==b) return; if(!special) report(n,a,b,"not finite"); return; }
    double tr = usesdiff && tolr<2e-4 ? 2e-4 : tolr;
    if(d > tr*m + tola) report(n,a,b,"differ");
}
void cv_ne_(const char*n,cx a,cx b){ if(mode!=2) return; nobl++; if(a==b) report(n,a,b,"equal"); }
void cv_lt(const char*n,double a,double b){ if(mode!=2) return; nobl++; if(a>=b + tola + 1e-9*(fabs(a)+fabs(b)) ) report(n,a,b,"not less"); }
void cv_le(const char*n,double a,double b){ if(mode!=2) return; nobl++; if(a>b + tola + 1e-9*(fabs(a)+fabs(b))) report(n,a,b,"greater"); }
void cv_true(const char*n,int c){ if(mode!=2) return; nobl++; if(!c) report(n,0,1,"false"); }
static cx dreq(cx f,const char*a,const char*b){
    int k=nd++; if(k>=MAXD) return 0;
    usesdiff=1;
    if(mode==0){ snprintf(dd[k].v1,64,"%s",a); snprintf(dd[k].v2,64,"%s",b); dd[k].f=f; dd[k].d=0; return 0; }
    if(mode==1){ pf[k]=f; return 0; }
    return dd[k].d;
}
cx cv_diff_(cx f,const char*v){ return dreq(f,v,""); }
cx cv_diff2_(cx f,const char*a,const char*b){ return dreq(f,a,b); }
cx cv_uf(const char*n,double x){ double a=0.5+u01(n,7001),b=0.3+u01(n,7002),c=u01(n,7003); return a*sin(b*x+c)+0.7*x*b+(cx)_Complex_I*(b*cos(a*x+c)+0.2*x*x*0.1); }
double cv_ufr(const char*n,double x){ return creal(cv_uf(n,x)); }
double cv_bessel(int n,double x){ return jn(n,x); }
void cv_exit_ok(void){ exit_ok=1; }
static const char *mustexit;
void cv_must_exit(const char*n){ mustexit=n; }
void cv_cover(const char*n){ (void)n; }
static int rmone(const char*p,const struct stat*s,int f,struct FTW*w){ (void)s;(void)f;(void)w; return remove(p); }
static void restore(void){ fflush(stdout); if(cap){ int fd=open("/dev/null",O_WRONLY); dup2(fd,1); close(fd); cap=0; } if(usedfs){ if(chdir(home)) _exit(97); } }
void cv_fs(void){ char d[4200]; snprintf(d,sizeof d,"%s/cvfs",home); if(chdir(home)) _exit(97); nftw(d,rmone,16,FTW_DEPTH|FTW_PHYS); if(mkdir(d,0777)||chdir(d)) _exit(97); usedfs=1; }
void cv_stdout(const char*p){ fflush(stdout); int fd=open(p,O_WRONLY|O_CREAT|O_TRUNC,0666); dup2(fd,1); close(fd); cap=1; }
void cv_getopt_reset(void){ optind=0; }
void cv_tol(double r,double a){ tolr=r; tola=a; }
void __real_exit(int);
void __wrap_exit(int code){
    if(!inh) __real_exit(code);
    if(mode==2 && !exit_ok){ if(mustexit){ nobl++; if(code==0) report(mustexit,0,1,"exit status 0"); } else report("no-abort",code,0,"exit called"); }
    siglongjmp(jb,3);
}
static void onsig(int s){ if(!inh) _exit(98); if(s==SIGALRM){ siglongjmp(jb,5);} report("defined",s,0,"signal"); siglongjmp(jb,4); }
void __asan_on_error(void){ if(inh) report("defined",0,0,"memory error"); fflush(rep); }
const char *__asan_default_options(void){ return "detect_leaks=0:handle_segv=0:handle_abort=0:allow_user_segv_handler=1:halt_on_error=1:exitcode=77"; }
static int once(void(*f)(void)){
    ncnt=0; nd=0; exit_ok=0; mustexit=NULL; tolr=1e-6; tola=1e-9; usesdiff=0; inh=1;
    int r = sigsetjmp(jb,1);
    if(r==0){ f(); if(mode==2 && mustexit){ nobl++; report(mustexit,0,1,"returned normally"); } }
    inh=0; restore();
    return r;
}
static int derivs(void(*f)(void), int tot){
    /* distinct requests */
    static cx acc[MAXD];
    for(int k=0;k<tot;k++){
        int dup=0; for(int j=0;j<k;j++) if(!strcmp(dd[j].v1,dd[k].v1)&&!strcmp(dd[j].v2,dd[k].v2)){dup=1;break;}
        if(dup) continue;
        int i=findin(dd[k].v1), j=dd[k].v2[0]?findin(dd[k].v2):-1;
        if(i<0) return 1;
        double sc = fabs(in[i].re); double rg=(in[i].hi-in[i].lo); if(sc<0.05*rg) sc=0.05*rg;
        double h = (j<0?1e-3:4e-3)*sc;
        int same = j==i;
        for(int q=0;q<tot;q++) acc[q]=0;
        double den;
        if(j<0){ static const double c[4]={1,-8,8,-1}, o[4]={-2,-1,1,2}; den=12*h;
            for(int m=0;m<4;m++){ mode=1; snprintf(pv1,64,"%s",dd[k].v1); pv2[0]=0; pd1=o[m]*h; int r=once(f); if(r==2||r>=3||nd!=tot) return 1; for(int q=0;q<tot;q++) acc[q]+=c[m]*pf[q]; } }
        else if(same){ static const double c[5]={-1,16,-30,16,-1}, o[5]={-2,-1,0,1,2}; den=12*h*h;
            for(int m=0;m<5;m++){ mode=1; snprintf(pv1,64,"%s",dd[k].v1); pv2[0]=0; pd1=o[m]*h; int r=once(f); if(r!=0||nd!=tot) return 1; for(int q=0;q<tot;q++) acc[q]+=c[m]*pf[q]; } }
        else { double sc2=fabs(in[j].re); double rg2=(in[j].hi-in[j].lo); if(sc2<0.05*rg2) sc2=0.05*rg2; double h2=4e-3*sc2;
            static const double c[4]={1,-8,8,-1}, o[4]={-2,-1,1,2}; den=144*h*h2;
            for(int m=0;m<4;m++) for(int p=0;p<4;p++){ mode=1; snprintf(pv1,64,"%s",dd[k].v1); snprintf(pv2,64,"%s",dd[k].v2); pd1=o[m]*h; pd2=o[p]*h2; int r=once(f); if(r!=0||nd!=tot) return 1; for(int q=0;q<tot;q++) acc[q]+=c[m]*c[p]*pf[q]; } }
        for(int q=0;q<tot;q++) if(!strcmp(dd[q].v1,dd[k].v1)&&!strcmp(dd[q].v2,dd[k].v2)) dd[q].d=acc[q]/den;
    }
    return 0;
}
int main(int argc,char**argv){
    rep=fdopen(dup(1),"w"); { int fd=open("/dev/null",O_WRONLY); dup2(fd,1); close(fd); } if(!getcwd(home,sizeof home)) return 96;
    const char*h=argv[1]; int n=atoi(argv[2]); uint64_t s0=strtoull(argv[3],0,10); thorough=atoi(argv[4]);
    const char *ovf = argc>5? argv[5]:NULL;
    void(*f)(void)=NULL; for(int i=0;cv_table[i].name;i++) if(!strcmp(cv_table[i].name,h)) f=cv_table[i].f;
    if(!f){ fprintf(stderr,"no harness %s\n",h); return 3; }
    curh=h;
    if(!freopen("/dev/null","w",stderr)) return 3;
    signal(SIGSEGV,onsig); signal(SIGFPE,onsig); signal(SIGABRT,onsig); signal(SIGBUS,onsig); signal(SIGALRM,onsig);
    int done=0,rejd=0,to=0;
    FILE*of=NULL; if(ovf){ of=fopen(ovf,"r"); if(!of) return 3; }
    for(int it=0;;it++){
        nov=0;
        if(of){ char line[65536*4]; if(!fgets(line,sizeof line,of)) break;
            char*sv=NULL; for(char*t=strtok_r(line," \n",&sv);t;t=strtok_r(NULL," \n",&sv)){ char*e=strchr(t,'='); if(!e) continue; *e=0; snprintf(ov[nov].name,64,"%s",t); char*q; ov[nov].re=strtod(e+1,&q); ov[nov].im= *q==','?strtod(q+1,NULL):0; nov++; } }
        else if(it>=n) break;
        if(done+rejd > 20*n+1000) break;
        seed=s0*1000003ULL+it; special = (!of) && (it%3==2); nin=0;
        alarm(30);
        mode=0; int r=once(f);
        if(r==2){ rejd++; if(!of && rejd<20*n) n++; continue; }
        if(r==5){ to++; continue; }
        int tot=nd<MAXD?nd:MAXD;
        if(tot>0 && r==0){ if(derivs(f,tot)){ rejd++; continue; } }
        mode=2; r=once(f); alarm(0);
        if(r==2){ rejd++; continue; }
        done++;
        if(nfail>=3) break;
    }
    fprintf(rep,"SUMMARY {\"done\":%d,\"rejected\":%d,\"timeouts\":%d,\"obligations\":%d,\"fails\":%d}\n",done,rejd,to,nobl,nfail);
    fflush(rep);
    _exit(nfail?1:0);
}

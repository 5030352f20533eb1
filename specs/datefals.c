/* Native falsifier for C07: the compiled date functions against an independent calendar.
   usage: datefals seed depth ; prints FAIL|clause|input|got|want lines and "N evaluations" */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
int date2mjd_nf(const char *date, double *mjd);
char *mjd2date(double); char *mjd2datef(double);
static long ev, fails, sel, part, of = 1;
static void fail(const char *c, const char *in, const char *got, const char *want){ if (fails++ < 5) printf("FAIL|%s|%s|%s|%s\n", c, in, got, want); fflush(stdout); }
static int leap(int y){ return (y%4==0 && y%100) || y%400==0; }
static const int ML[13]={0,31,28,31,30,31,30,31,31,30,31,30,31};
static int mlen(int y,int m){ return m==2 ? 28+leap(y) : ML[m]; }
static unsigned long long rs; static unsigned long long rnd(void){ rs ^= rs<<13; rs ^= rs>>7; rs ^= rs<<17; return rs; }
static long base; /* MJD of 0000-01-01 */
static int ndays; static int *Y,*M,*D;
static void forward(int y,int m,int d,int h,int mi,int s,long day){
  if (sel++ % of != part) return; char b[64], g[64], w[64]; double x = -99; ev++;
  snprintf(b,64,"%04d-%02d-%02dT%02d:%02d:%02d",y,m,d,h,mi,s);
  int r = date2mjd_nf(b,&x); double want = day + (h*3600+mi*60+s)/86400.;
  snprintf(g,64,"%d %.9f",r,x); snprintf(w,64,"0 %.9f",want);
  if (r || !(fabs(x-want)*86400 < 0.5)) { fail("date to MJD within half a second",b,g,w); return; }
  char *p = mjd2date(x);
  char c[64]; snprintf(c,64,"%4d-%02d-%02dT%02d:%02d:%02d",y,m,d,h,mi,s);
  if (!p || strcmp(p,c)) fail("date -> MJD -> date is the identity",b,p?p:"NULL",c);
}
/* the date string must be a valid date within tol seconds of the instant: day number + frac */
static void back(double mjd){
  if (sel++ % of != part) return; char in[64], g[64], w[64]; ev++; snprintf(in,64,"mjd=%.17g (%a)",mjd,mjd);
  char *p = mjd2date(mjd); 
  long double t = (long double)mjd - base; /* days since 0000-01-01 */
  int inside = t >= 0 && t < ndays - 1./86400, out = !(t >= -1./86400 && t < ndays);
  if (out && p) { fail("MJD outside years 0..9999 is refused",in,p,"NULL"); }
  if (!p && inside) fail("MJD inside years 0..9999 gives a date",in,"NULL","a date");
  if (p && !out) {
    int y,m,d,h,mi,s,n=0; if (strlen(p)!=19 || sscanf(p,"%4d-%2d-%2dT%2d:%2d:%2d%n",&y,&m,&d,&h,&mi,&s,&n)!=6 || n!=19 || p[4]!='-') { fail("fixed width",in,p,"yyyy-mm-ddThh:mm:ss"); return; }
    if (m<1||m>12||d<1||d>mlen(y,m)||h<0||h>23||mi<0||mi>59||s<0||s>59||y<0||y>9999) { fail("valid fields",in,p,"month 1-12, day of the month, 0-23, 0-59, 0-59"); return; }
    long k = (long)floorl(t + 0.5/86400); long kk; 
    /* day number of the printed date */
    long a = 365L*y + (y+3)/4 - (y+99)/100 + (y+399)/400; for (int i=1;i<m;i++) a += mlen(y,i); a += d-1;
    long double e = ((long double)a - t)*86400 + h*3600+mi*60+s;
    if (!(fabsl(e) <= 0.5 + 1e-4)) { snprintf(w,64,"within half a second (off by %.4Lf s)",e); fail("nearest second",in,p,w); }
    (void)k;(void)kk;
  }
  char *q = mjd2datef(mjd); 
  if (out && q && (t < 0 || t >= ndays)) { fail("MJD outside years 0..9999 is refused (ms)",in,q,"NULL"); return; }
  if (!q && t >= 1e-9 && t < ndays-1e-9) { fail("MJD inside years 0..9999 gives a date (ms)",in,"NULL","a date"); return; }
  if (q && !out) {
    int y,m,d,h,mi,s,f,n=0; if (strlen(q)!=23 || sscanf(q,"%4d-%2d-%2dT%2d:%2d:%2d.%3d%n",&y,&m,&d,&h,&mi,&s,&f,&n)!=7 || n!=23) { fail("fixed width (ms)",in,q,"yyyy-mm-ddThh:mm:ss.fff"); return; }
    if (m<1||m>12||d<1||d>mlen(y,m)||h<0||h>23||mi<0||mi>59||s<0||s>59||f<0||f>999||y<0||y>9999) { fail("valid fields (ms)",in,q,"valid fields"); return; }
    long a = 365L*y + (y+3)/4 - (y+99)/100 + (y+399)/400; for (int i=1;i<m;i++) a += mlen(y,i); a += d-1;
    long double e = ((long double)a - t)*86400 + h*3600+mi*60+s + f*1e-3L;
    if (!(e >= -0.001 - 1e-4 && e <= 1e-4)) { snprintf(w,64,"truncated to the millisecond (off by %.5Lf s)",e); fail("instant truncated to the millisecond",in,q,w); }
  }
}
static void reject(const char *b){ double x=7; ev++; int r = date2mjd_nf(b,&x); if (r==0) { char g[64]; snprintf(g,64,"0 %.9f",x); fail("a string without the form of a date is refused",b,g,"nonzero"); } }
int main(int c,char **v){
  long seed = atol(v[1]); int depth = atoi(v[2]); if (c > 4) { part = atol(v[3]); of = atol(v[4]); } rs = 88172645463325252ULL ^ ((unsigned long long)seed * 2654435761ULL); 
  base = -678941; ndays = 0;
  for (int y=0;y<10000;y++) ndays += 365+leap(y);
  Y=malloc(ndays*4);M=malloc(ndays*4);D=malloc(ndays*4); int k=0;
  for (int y=0;y<10000;y++) for (int m=1;m<=12;m++) for (int d=1;d<=mlen(y,m);d++){ Y[k]=y;M[k]=m;D[k]=d;k++; }
  /* every day */
  for (k=0;k<ndays;k++){ int t = rnd()%86400; forward(Y[k],M[k],D[k],t/3600,t/60%60,t%60,base+k);
    if (depth>1||k%7==0||Y[k]%100==0||Y[k]%4==0&&M[k]<4) { forward(Y[k],M[k],D[k],0,0,0,base+k); forward(Y[k],M[k],D[k],23,59,59,base+k); } }
  /* every second of some days */
  int nd = depth>1 ? 200 : 12;
  for (int i=0;i<nd;i++){ k = i==0?0: i==1?ndays-1: i==2? 678941 : i==3? 678941+60000 : rnd()%ndays; for (int t=0;t<86400;t++){ forward(Y[k],M[k],D[k],t/3600,t/60%60,t%60,base+k); } }
  /* every double whose fraction of the day lies within 64 units of 2^-54 of a whole second (and, for mjd2datef, the same without the half second): days 0 and -1, where
     the fractions of all other days are a subset of these */
  for (int day=-1;day<=0;day++) for (long t=0;t<=86400;t++) for (int hs=0;hs<2;hs++){ if (depth<2 && day && t%8) continue;
    double x = day + t/86400. - (hs ? 0.000005787037037037037 : 0), u = 1/18014398509481984., y = x - 64*u;
    for (int i=0;i<130 && y <= x + 64*u;i++){ back(y); double z = nextafter(y,1e9); y = z - y < u ? y + u : z; } }
  /* boundaries of every day */
  for (k=-3;k<ndays+3;k++){ double x = base+k; for (int i=-1;i<2;i++) { double z = i<0?nextafter(x,-1e18):i>0?nextafter(x,1e18):x; back(z); back(z-0.5/86400); } back(x + (rnd()>>11)/9007199254740992.0); }
  /* ends */
  double ends[]={-68569.5-2400000.5,1e9,1e9-2400000.5,2400000.5,-2400000.5,1e300,-1e300,INFINITY,-INFINITY,NAN,1e-300,-1e-300,5e-324,-1e9,2973484,2973483.9999,-678941,-678942,1e12,4e9,1e19,-1e19};
  for (int i=0;i<(int)(sizeof ends/sizeof *ends);i++){ back(ends[i]); for (int j=-3;j<4;j++) back(ends[i]+j*0.25/86400); }
  long n = depth>1 ? 20000000 : 1500000;
  for (long i=0;i<n;i++){ double u = (rnd()>>11)/9007199254740992.0; back(i%3==0 ? 40000+40000*u : i%3==1 ? base-10+u*(ndays+20) : -1e9+u*3e9); }
  /* refused strings: any text from which six numbers cannot be read in this form */
  const char *bad[]={"","2020","2020-08","2020-08-07","2020-08-07T","2020-08-07T12","2020-08-07T12:15","2020-08-07T12:15:","2020-08-07 12:15:11x","2020-08-07T12-15-11","2020/08/07T12:15:11","hello","T12:15:11","2020-08-07t12:15:11","20200807T121511","-","2020-08-07T12:15:x","2020-08-07T:15:11","2020-08-x7T12:15:11","2020-x8-07T12:15:11","x020-08-07T12:15:11","12020-08-07T12:15:11","2020-108-07T12:15:11","2020-08-107T12:15:11","2020-08-07T112:15:11","2020-08-07T12:115:11"};
  for (int i=0;i<(int)(sizeof bad/sizeof *bad);i++) reject(bad[i]);
  const char *good="2020-08-07T12:15:11"; char b[64];
  for (int i=0;i<19;i++){ strcpy(b,good); b[i]=0; if (i<18) reject(b); for (int ch=33;ch<127;ch++){ int dig = ch>='0'&&ch<='9'; strcpy(b,good); b[i]=ch; int sep=(i==4||i==7||i==10||i==13||i==16); if (sep && ch!=good[i]) { if ((ch=='+'||ch=='-')) continue; reject(b);} else if (!sep && !dig && ch!='-' && ch!='+' && !(i==1||i==2||i==3||i==6||i==9||i==12||i==15||i==18)) reject(b); } }
  free(Y);free(M);free(D);
  printf("%ld evaluations\n",ev); return 0;
}

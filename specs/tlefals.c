/* Native falsifier for C04-C06: the compiled element parser against independent readings of the format.
   usage: tlefals prop seed depth part of   |   tlefals replay prop hex1 hex2 ; prints FAIL|clause|input|got|want and "N evaluations" */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
#include <stdint.h>
#include "norad.h"
static long ev, fails, part, of = 1; static const char *P;
static const char *cur1 = "", *cur2 = "";
static void hex(char *o, const char *s){ for (;*s;s++) o += sprintf(o, (*s>=' ' && *s<127 && *s!='|' && *s!='\\') ? "%c" : "\\x%02x", (unsigned char)*s); *o=0; }
static void fail(const char *c, const char *got, const char *want){ static char a[2000], b[2000]; if (fails++ < 5) { hex(a,cur1); hex(b,cur2); printf("FAIL|%s|%s / %s|%s|%s\n", c, a, b, got, want); fflush(stdout); } }
static void onalarm(int s){ fail("terminates","still running after 20 s","returns"); _exit(3); }
static unsigned long long rs; static unsigned long long rnd(void){ rs ^= rs<<13; rs ^= rs>>7; rs ^= rs<<17; return rs; }
static int R(int n){ return (int)((rnd()>>16) % n); }
/* the checksum: 0..9 the difference, -1 not a TLE line */
static int sum(const char *b){ size_t n = strlen(b); int s = 0; if (n<69 || (b[0]!='1'&&b[0]!='2') || b[1]!=' ') return -1; for (int i=0;i<68;i++){ if (b[i]<' '||b[i]>'z') return -1; if (b[i]>='0'&&b[i]<='9') s += b[i]-'0'; else if (b[i]=='-') s++; } if (b[68]<'0'||b[68]>'9'||b[69]>' ') return -1; return ((s-(b[68]-'0'))%10+10)%10; }
static int b34(char c){ if (c>='0'&&c<='9') return c-'0'; if (c>='A'&&c<='Z'&&c!='I'&&c!='O') return c-'A'+10-(c>'I')-(c>'O'); if (c==' ') return 0; return -1; }
/* catalogue number, -1 invalid (decodes to 0) */
static long cat(const char *s){ long v[5], base = 340000, n; for (int i=0;i<5;i++) if ((v[i]=b34(s[i]))<0) return 0; int k=4; while (k>0 && v[k]<10) k--; if (!k) return v[0]*10000+v[1]*1000+v[2]*100+v[3]*10+v[4];
  long p34[5]={1,34,1156,39304,1336336}, p10[5]={1,10,100,1000,10000}; for (int j=4;j>k;j--) base += p34[j]*24*p10[4-j]; n = 0; for (int i=0;i<k;i++) n = n*34+v[i]; n = n*24+v[k]-10; for (int i=k+1;i<5;i++) n = n*10+v[i]; return base+n; }
static int hexa(const char *s, double *o){ if (*s!='+'&&*s!='-') return -1; int64_t r=0; for (int i=1;i<9;i++){ int d = s[i]>='0'&&s[i]<='9' ? s[i]-'0' : s[i]>='A'&&s[i]<='Z' ? s[i]-'A'+10 : -1; if (d<0) return -1; r = r*36+d; } *o = (double)(*s=='-'?-r:r); return 0; }
static int close_(double a, double b){ return a==b || fabs(a-b) <= 4e-15*fabs(b); }
typedef struct { char a[8]; tle_t t; char b[8]; } guarded;
/* parses and checks status, frame and the fields every accepted pair has */
static int parse(const char *l1, const char *l2, tle_t *out){
  char *p = malloc(strlen(l1)+1), *q = malloc(strlen(l2)+1); strcpy(p,l1); strcpy(q,l2); cur1=l1; cur2=l2; ev++;
  guarded g; memset(&g,0x5a,sizeof g); alarm(20); int r = parse_elements(p,q,&g.t); alarm(0);
  for (int i=0;i<8;i++) if (g.a[i]!=0x5a||g.b[i]!=0x5a) fail("writes only the element record","changed memory beside it","unchanged");
  if (strcmp(p,l1)||strcmp(q,l2)) fail("input lines unchanged",p,l1);
  int s1 = sum(l1), s2 = sum(l2), want = l1[0]!='1'||l2[0]!='2'||s1<0||s2<0 ? -1 : (s1>0)+2*(s2>0); char a[64], b[64];
  if (want>=0 && l1[62]=='H'){ double v; for (int i=0;i<3;i++) if (hexa(l1+33+10*i,&v)||hexa(l2+33+10*i,&v)) want=-1; }
  snprintf(a,64,"%d",r); snprintf(b,64,want<0?"negative":"%d",want);
  if (want<0 ? r>=0 : r!=want) fail("status of the pair of lines",a,b);
  else if (r>=0 && strcmp(P,"C04")) {
    long n = cat(l1+2); snprintf(a,64,"%d",g.t.norad_number); snprintf(b,64,"%ld",n);
    if (n!=g.t.norad_number && !memchr(l1+3,' ',4)) fail("catalogue number",a,b);
    snprintf(a,64,"%c %c %.8s",g.t.classification,g.t.ephemeris_type,g.t.intl_desig); snprintf(b,64,"%c %c %.8s",l1[7],l1[62],l1+9);
    if (g.t.classification!=l1[7]||g.t.ephemeris_type!=l1[62]||strncmp(g.t.intl_desig,l1+9,8)||g.t.intl_desig[8]) fail("classification, ephemeris type and designator",a,b);
    if (l1[62]=='H') for (int i=0;i<3;i++){ double v,w; const double *sv=&g.t.xincl; hexa(l1+33+10*i,&v); hexa(l2+33+10*i,&w); if (sv[i]!=v||!close_(sv[i+3],w/1e4)) { snprintf(a,64,"%.17g %.17g",sv[i],sv[i+3]); snprintf(b,64,"%.17g %.17g",v,w/1e4); fail("state vector",a,b); } }
  }
  if (out) *out = g.t; free(p); free(q); return r;
}
static void fix(char *l){ int s=0; for (int i=0;i<68;i++) if (l[i]>='0'&&l[i]<='9') s+=l[i]-'0'; else if (l[i]=='-') s++; l[68]='0'+s%10; }
/* ------------ well-formed sets with known values */
typedef struct { int year, bull, rev; long norad; double day, ndot, nddot, bstar, inc, node, ecc, argp, ma, mm; char cls, type, des[9]; } val;
static double put(char *l,int at,int w,int intw,int frac){ /* right-justified ddd.ffff, value as integer digits */
  char f[40]; long m=1; for (int i=0;i<frac;i++) m*=10; long lim = intw==3?360:intw==2?18:9; long v = ((long)R(lim))*m + (long)(rnd()%m); if (!R(8)) v = ((long)R(lim))*m; if (!R(8)) v = rnd()%m; snprintf(f,40,R(4)?"%*ld.%0*ld":"%0*ld.%0*ld",intw,v/m,frac,v%m); memcpy(l+at,f,w); return (double)v/m; }
static double expo(char *l,int at){ char f[40]; int sg=R(3), e=R(10), es=R(3); long m = R(6)?10000+R(90000):R(3)?R(100000):0; snprintf(f,40,"%c%05ld%c%d"," +-"[sg],m,"-+ "[es],e); memcpy(l+at,f,8); return (sg==2?-1:1)*m*1e-5*pow(10,es==0?-e:e); }
static void good(char *l1,char *l2,val *v){
  char t[40]; memset(l1,' ',69); memset(l2,' ',69); l1[69]=l2[69]=0; l1[0]='1'; l2[0]='2';
  static const char A[]="0123456789ABCDEFGHJKLMNPQRSTUVWXYZ"; int k=R(3); for (int i=0;i<5;i++) l1[2+i] = k==0?'0'+R(10):k==1?(i?'0'+R(10):A[R(34)]):A[R(34)]; memcpy(l2+2,l1+2,5); v->norad = cat(l1+2);
  v->cls = l1[7] = "UCS "[R(4)]; for (int i=0;i<8;i++) l1[9+i] = i<5?'0'+R(10):i<6?'A'+R(26):R(2)?' ':'A'+R(26); memcpy(v->des,l1+9,8); v->des[8]=0;
  int yy=R(100); v->year = yy<57?2000+yy:1900+yy; snprintf(t,40,"%02d",yy); memcpy(l1+18,t,2); if (yy<10&&!R(4)) l1[18]=' ';
  int d=1+R(366); long f=rnd()%100000000; snprintf(t,40,R(3)?"%03d.%08ld":"%3d.%08ld",d,f); memcpy(l1+20,t,12); v->day = d+f*1e-8;
  l1[33] = " -+0"[R(4)]; long nd = R(3)?R(100000):rnd()%100000000; snprintf(t,40,".%08ld",nd); memcpy(l1+34,t,9); v->ndot = (l1[33]=='-'?-1:1)*nd*1e-8;
  v->nddot = expo(l1,44); v->bstar = expo(l1,53); v->type = l1[62] = "0123456 "[R(8)]; int bn=R(10000); snprintf(t,40,R(2)?"%4d":"%04d",bn); memcpy(l1+64,t,4); v->bull=bn;
  v->inc = put(l2,8,8,3,4); v->node = put(l2,17,8,3,4); snprintf(t,40,"%07ld",nd=(long)(rnd()%10000000)); memcpy(l2+26,t,7); v->ecc = nd*1e-7; v->argp = put(l2,34,8,3,4); v->ma = put(l2,43,8,3,4); v->mm = put(l2,52,11,2,8);
  v->rev = rnd()%100000; snprintf(t,40,R(2)?"%5d":"%05d",v->rev); memcpy(l2+63,t,5); fix(l1); fix(l2);
}
static void near_(const char *f,double got,double want){ char a[64],b[64]; if (!close_(got,want)) { snprintf(a,64,"%s=%.17g",f,got); snprintf(b,64,"%.17g",want); fail("decoded field",a,b); } }
static void c05(void){
  char l1[80], l2[80]; val v; tle_t t; good(l1,l2,&v); if (R(6)==0) strcat(l1,R(2)?"\n":"\r\n"), strcat(l2,"\n");
  if (parse(l1,l2,&t)!=0) return;
  const double D=M_PI/180; int y=v.year-1; long jan0 = 365L*y + y/4 - y/100 + y/400; /* days from 0001-01-01 */ double ep = 1721424.5 + jan0 + v.day;
  if (fabs(t.epoch-ep)>1.5e-9) near_("epoch",t.epoch,ep);
  near_("inclination",t.xincl,v.inc*D); near_("node",t.xnodeo,v.node*D); near_("eccentricity",t.eo,v.ecc); near_("argument of perigee",t.omegao,v.argp*D); near_("mean anomaly",t.xmo,v.ma*D); near_("mean motion",t.xno,v.mm*2*M_PI/1440);
  near_("first derivative",t.xndt2o,v.ndot*2*M_PI/1440/1440); near_("second derivative",t.xndd6o,v.nddot*2*M_PI/1440/1440/1440); near_("bstar",t.bstar,v.bstar);
  near_("catalogue number",t.norad_number,v.norad); near_("element number",t.bulletin_number,v.bull); near_("revolution number",t.revolution_number,v.rev);
}
static void hrec(char *l1,char *l2){ val v; good(l1,l2,&v); l1[62]='H'; static const char A[]="0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"; memset(l1+32,' ',30); memset(l2+32,' ',31);
  for (int i=0;i<3;i++) for (int j=0;j<9;j++){ l1[33+10*i+j] = j?A[R(36)]:"+-"[R(2)]; l2[33+10*i+j] = j?A[R(36)]:"+-"[R(2)]; }
  if (!R(4)) { char *l=R(2)?l1:l2; l[33+R(29)] = " aI.#0-Z"[R(8)]; } fix(l1); fix(l2); }
static void damage(char *l){ int n=strlen(l), k=R(4); while (k--) switch(R(7)){ case 0: if (n) l[R(n)] = R(256); break; case 1: l[n=R(n+1)]=0; break; case 2: if (n) l[R(n)] = '0'+R(10); break; case 3: if (n) l[R(n)] = " -+.9AZaz{@/:"[R(13)]; break;
   case 4: { int a=R(n+1), m=R(20); char c=" 9-.Z"[R(5)]; for (int i=a;i<a+m&&i<n;i++) l[i]=c; break; } case 5: if (n<90) { l[n++]=" 5\n\rX\x80"[R(6)]; l[n]=0; } break; case 6: break; } n=strlen(l); if (n==69&&R(3)) fix(l); }
static void c06(void){ char l1[120]={0}, l2[120]={0}; val v; if (R(5)==0) hrec(l1,l2); else good(l1,l2,&v); if (R(10)) { damage(l1); damage(l2); } if (R(9)==0) { int n=R(80); for (int i=0;i<n;i++) l1[i]=1+R(255); l1[n]=0; }
  if (strlen(l1)>=69&&R(3)) fix(l1); if (strlen(l2)>=69&&R(3)) fix(l2);
  char *p=malloc(strlen(l1)+1); strcpy(p,l1); cur1=l1; cur2=""; int r=tle_checksum(p), s=sum(l1); char a[32],b[32]; snprintf(a,32,"%d",r); snprintf(b,32,s<0?"negative":"%d",s); ev++;
  if (s<0?r>=0:r!=s) fail("checksum",a,b); free(p);
  parse(l1,l2,0); }
static void c04(void){ char l[100]; val v; char m[100]; good(l,m,&v); if (R(2)) strcpy(l,m); int k=R(8);
  if (k==0) l[68]='0'+R(10); else if (k==1) l[R(70)]=R(256); else if (k==2) damage(l); else if (k==3) { l[69]=R(256); l[70]=0; } else if (k==4) { for (int i=2;i<68;i++) l[i]=32+R(91); fix(l); l[68]='0'+R(10); } else if (k==5) { l[R(69)] = 1+R(31); } else if (k==6) l[R(2)]=R(2)?'0'+R(10):33+R(90); 
  cur1=l; cur2=""; int r=tle_checksum(l), s=sum(l); char a[32],b[32]; snprintf(a,32,"%d",r); snprintf(b,32,s<0?"negative":"%d",s); ev++; if (s<0?r>=0:r!=s) fail("checksum",a,b);
  val w; char l1[100],l2[100]; good(l1,l2,&w); if (R(4)==0) hrec(l1,l2); if (R(2)) l1[68]='0'+R(10); if (R(2)) l2[68]='0'+R(10); if (R(8)==0) damage(l1); if (R(8)==0) damage(l2); if (R(12)==0) l1[0]='2'; if (R(12)==0) l2[0]='1'; parse(l1,l2,0); }
int main(int c,char **v){
  signal(SIGALRM,onalarm); P = v[1];
  if (!strcmp(v[1],"replay")){ static char l[2][4096]; P = v[2]; for (int k=0;k<2;k++){ int n=0; const char *h=v[3+k]; while (h[2*n]) { unsigned x; sscanf(h+2*n,"%2x",&x); l[k][n++]=x; } }
    { char *p=malloc(strlen(l[0])+1); strcpy(p,l[0]); cur1=l[0]; int r=tle_checksum(p), s=sum(l[0]); char a[32],b[32]; snprintf(a,32,"%d",r); snprintf(b,32,s<0?"negative":"%d",s); if (s<0?r>=0:r!=s) fail("checksum",a,b); free(p); }
    parse(l[0],l[1],0); printf("%ld evaluations\n",ev); return 0; }
  rs = 88172645463325252ULL ^ ((unsigned long long)atol(v[2])*2654435761ULL) ^ ((unsigned long long)atol(v[4])*0x9E3779B97F4A7C15ULL); part=atol(v[4]); of=atol(v[5]); long depth=atol(v[3]);
  if (!strcmp(P,"C05")) {
    /* every five-character catalogue number of the 34-letter alphabet */
    static const char A[]="0123456789ABCDEFGHJKLMNPQRSTUVWXYZ"; char l1[80],l2[80]; val w; rs^=0; good(l1,l2,&w); l1[7]='U'; tle_t t; long k=0;
    for (int a=0;a<34;a++) for (int b=0;b<34;b++) { if (k++%of!=part) continue; for (int d=0;d<34;d++) for (int e=0;e<34;e++) for (int f=0;f<34;f++){ if (depth<2 && !(a<11&&b<11) && (d*34+e+f)%16) continue;
      l1[2]=A[a];l1[3]=A[b];l1[4]=A[d];l1[5]=A[e];l1[6]=A[f]; ev++; cur1=l1;cur2=l2; int r=parse_elements(l1,l2,&t); if (r<0||t.norad_number!=cat(l1+2)) { char x[64],y[64]; snprintf(x,64,"%d %d",r,t.norad_number); snprintf(y,64,"%ld",cat(l1+2)); fail("catalogue number",x,y); } } }
    for (int i=0;i<5;i++) for (int ch=33;ch<123;ch++) if (b34(ch)<0) { memcpy(l1+2,"25544",5); l1[2+i]=ch; parse_elements(l1,l2,&t); ev++; cur1=l1; if (t.norad_number!=0) fail("an invalid catalogue number decodes to 0","nonzero","0"); }
  }
  long n = (depth>1?4000000:400000)/of; for (long i=0;i<n;i++) { if (!strcmp(P,"C04")) c04(); else if (!strcmp(P,"C05")) { c05(); if (i%4==0) { char l1[100],l2[100]; hrec(l1,l2); parse(l1,l2,0); } } else c06(); }
  printf("%ld evaluations\n",ev); return 0;
}

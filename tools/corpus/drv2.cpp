#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <set>
#include <algorithm>
#include <random>
#include <map>
#include <array>
#include <time.h>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
#include <stdint.h>
typedef std::vector<std::pair<int,int>> EL; std::mt19937 rng;
int R(int n){return rng()%n;}
void norm(EL&e){ std::set<std::pair<int,int>> s; EL o; for(auto x:e){ if(x.first==x.second)continue; if(x.first>x.second)std::swap(x.first,x.second); if(s.insert(x).second)o.push_back(x);} e=o; }
EL clique(int k){EL e; for(int i=1;i<=k;i++)for(int j=i+1;j<=k;j++)e.push_back({i,j});return e;}
EL ksum(int n,int kind){ EL e; int nv; if(kind==0){e=clique(5);nv=5;} else if(kind==1){ for(int i=1;i<4;i++)for(int j=4;j<7;j++)e.push_back({i,j}); nv=6;} else if(kind==2){e=clique(4);nv=4;} else if(kind==4){ for(int i=1;i<3;i++)for(int j=3;j<6;j++)e.push_back({i,j}); nv=5;} else {e=clique(3);nv=3;}
  int w5=(kind<=1)?2:0, w4=(kind<=2&&kind!=2)?1:(R(3)==0); double drop=R(10)/10.0;
  while(nv<n){ std::vector<int> c={1}; if(n-nv>=3)for(int i=0;i<w5;i++)c.push_back(3); if(n-nv>=2&&w4)c.push_back(2); int k=c[R(c.size())]; int i=R(e.size()); auto x=e[i]; std::vector<int> v={x.first,x.second}; for(int j=0;j<k;j++)v.push_back(++nv);
    if(R(100)<drop*100) e.erase(e.begin()+i);
    for(size_t a=0;a<v.size();a++)for(size_t b=a+1;b<v.size();b++)if(b>1)e.push_back({v[a],v[b]}); }
  return e; }
EL maxplanar(int n){ EL e={{1,2},{1,3},{2,3}}; std::vector<std::array<int,3>> f={{1,2,3},{1,2,3}}; for(int v=4;v<=n;v++){int i=R(f.size());auto t=f[i];f.erase(f.begin()+i);for(int k=0;k<3;k++){e.push_back({t[k],v});f.push_back({t[k],t[(k+1)%3],v});}} return e;}
EL outer(int n){ EL e={{1,2},{1,3},{2,3}}; EL h=e; for(int v=4;v<=n;v++){int i=R(h.size());auto x=h[i];h.erase(h.begin()+i);e.push_back({x.first,v});e.push_back({x.second,v});h.push_back({x.first,v});h.push_back({x.second,v});} return e;}

static EL cur; static int curn,ccmd,found=0,lim; 
static void put(const char*w){ char b[4000]; int k=sprintf(b,"%d %d",ccmd,curn); for(auto x:cur)k+=sprintf(b+k," %d,%d",x.first,x.second); k+=sprintf(b+k," #%s\n",w); if(write(1,b,k)){}; }
static void sg(int s){ put(s==SIGALRM?"hang":"crash"); _exit(0); }
typedef int(*RF)(int,int,const int*,int,int);
int main(int argc,char**argv){ ccmd=atoi(argv[1]); int cmd=ccmd; int secs=atoi(argv[2]); int maxn=atoi(argv[3]); lim=atoi(argv[4]); rng.seed(atoi(argv[5]));
  RF A=(RF)dlsym(dlopen(argv[6],RTLD_NOW|RTLD_LOCAL),"run"), B=(RF)dlsym(dlopen(argv[7],RTLD_NOW|RTLD_LOCAL),"run"); if(!A||!B){puts(dlerror());return 2;}
  for(int s:{SIGSEGV,SIGABRT,SIGBUS,SIGFPE,SIGALRM})signal(s,sg);
  time_t t0=time(0);
  while(time(0)-t0<secs&&found<lim){ int n=6+R(maxn-5); EL e; int k=R(6);
    if(k<=2) e=ksum(n,cmd==4||cmd==1?2+R(3):cmd==2?2+R(3):R(2)); else if(k==3) e=(cmd==1||cmd==2||cmd==4)?outer(n):maxplanar(n); else if(k==4){ e=ksum(n,cmd==4||cmd==1||cmd==2?3:0);} else { int m=n+R(2*n); for(int i=0;i<m;i++)e.push_back({1+R(n),1+R(n)}); }
    int del=R(3)?R(4):R(e.size()/2+1); for(int i=0;i<del&&e.size()>3;i++)e.erase(e.begin()+R(e.size()));
    int add=R(4); for(int i=0;i<add;i++)e.push_back({1+R(n),1+R(n)});
    norm(e); if((int)e.size()>3*n-3||e.size()<6) continue; std::vector<int> lab(n+1); for(int i=0;i<=n;i++)lab[i]=i; std::shuffle(lab.begin()+1,lab.end(),rng); for(auto&x:e){x={lab[x.first],lab[x.second]};} norm(e); std::shuffle(e.begin(),e.end(),rng);
    cur=e; curn=n; std::vector<int> uv; for(auto x:e){uv.push_back(x.first);uv.push_back(x.second);}
    int a=A(n,e.size(),uv.data(),cmd,cmd<2); alarm(3); int b=B(n,e.size(),uv.data(),cmd,cmd<2); alarm(0);
    if(a&1) put("ORIG"); if(a!=b){ put((b&1)?"bad":"verdict"); found++; } }
}

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <set>
#include <algorithm>
#include <random>
#include <map>
#include <array>
#include <time.h>
extern "C" { void*mk(int,int,const int*,int); int emb(void*,int); void fr(void*); }
#include <stdint.h>
static uint8_t hit[65536]; static uint32_t NG=0; static std::vector<uint32_t> touched;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t*a,uint32_t*b){ if(a==b||*a)return; for(;a<b;a++)*a=++NG; }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*g){ if(!hit[*g]){touched.push_back(*g);} if(hit[*g]<255)hit[*g]++; }
typedef std::vector<std::pair<int,int>> EL; std::mt19937 rng;
int R(int n){return rng()%n;}
void norm(EL&e){ std::set<std::pair<int,int>> s; EL o; for(auto x:e){ if(x.first==x.second)continue; if(x.first>x.second)std::swap(x.first,x.second); if(s.insert(x).second)o.push_back(x);} e=o; }
EL clique(int k){EL e; for(int i=1;i<=k;i++)for(int j=i+1;j<=k;j++)e.push_back({i,j});return e;}
EL ksum(int n,int kind){ EL e; int nv; if(kind==0){e=clique(5);nv=5;} else if(kind==1){ for(int i=1;i<4;i++)for(int j=4;j<7;j++)e.push_back({i,j}); nv=6;} else if(kind==2){e=clique(4);nv=4;} else if(kind==4){ for(int i=1;i<3;i++)for(int j=3;j<6;j++)e.push_back({i,j}); nv=5;} else {e=clique(3);nv=3;}
  int w5=(kind<=1)?2:0, w4=(kind<=2&&kind!=2)?1:(R(3)==0); double drop=R(10)/10.0;
  while(nv<n){ std::vector<int> c={1}; if(n-nv>=3)for(int i=0;i<w5;i++)c.push_back(3); if(n-nv>=2&&w4)c.push_back(2); int k=c[R(c.size())]; int i=R(e.size()); auto x=e[i]; std::vector<int> v={x.first,x.second}; for(int j=0;j<k;j++)v.push_back(++nv);
    if(R(100)<drop*100) e.erase(e.begin()+i);
    for(size_t a=0;a<v.size();a++)for(size_t b=a+1;b<v.size();b++)if(b>1)e.push_back({v[a],v[b]}); }
  return e; }
EL maxplanar(int n){ EL e={{1,2},{1,3},{2,3}}; std::vector<std::array<int,3>> f={{1,2,3},{1,2,3}}; for(int v=4;v<=n;v++){int i=R(f.size());auto t=f[i];f.erase(f.begin()+i);for(int k=0;k<3;k++){e.push_back({t[k],v});f.push_back({t[k],t[(k+1)%3],v});}} return e;}
EL outer(int n){ EL e={{1,2},{1,3},{2,3}}; EL h=e; for(int v=4;v<=n;v++){int i=R(h.size());auto x=h[i];h.erase(h.begin()+i);e.push_back({x.first,v});e.push_back({x.second,v});h.push_back({x.first,v});h.push_back({x.second,v});} return e;}
int main(int argc,char**argv){ int cmd=atoi(argv[1]); int secs=atoi(argv[2]); int maxn=atoi(argv[3]); int per=atoi(argv[4]); rng.seed(atoi(argv[5]));

  std::map<uint32_t,std::vector<std::pair<int,int>>> best; /* guard -> (n*1000+m, instance) */ std::vector<std::pair<int,EL>> inst; time_t t0=time(0); long cnt=0; std::map<uint32_t,long> freq;
  while(time(0)-t0<secs){ int n=6+R(maxn-5); EL e; int k=R(6);
    if(k<=2) e=ksum(n,cmd==4||cmd==1?2+R(3):cmd==2?2+R(3):R(2)); else if(k==3) e=(cmd==1||cmd==2||cmd==4)?outer(n):maxplanar(n); else if(k==4){ e=ksum(n,cmd==4||cmd==1||cmd==2?3:0);} else { int m=n+R(2*n); for(int i=0;i<m;i++)e.push_back({1+R(n),1+R(n)}); }
    int del=R(3)?R(4):R(e.size()/2+1); for(int i=0;i<del&&e.size()>3;i++)e.erase(e.begin()+R(e.size()));
    int add=R(4); for(int i=0;i<add;i++)e.push_back({1+R(n),1+R(n)});
    norm(e); if((int)e.size()>3*n-3) continue; std::vector<int> lab(n+1); for(int i=0;i<=n;i++)lab[i]=i; std::shuffle(lab.begin()+1,lab.end(),rng); for(auto&x:e){x={lab[x.first],lab[x.second]};} norm(e); std::shuffle(e.begin(),e.end(),rng);
    std::vector<int> uv; for(auto x:e){uv.push_back(x.first);uv.push_back(x.second);} void*g=mk(n,e.size(),uv.data(),cmd);
    for(auto t:touched)hit[t]=0; touched.clear();
    int r=emb(g,cmd); if(r!=1&&r!=-1){fprintf(stderr,"r=%d\n",r);} fr(g); cnt++;
    int key=n*100+e.size(); bool used=false;
    for(auto t:touched){ freq[t]++; auto&b=best[t]; if((int)b.size()<per||b.back().first>key){ if(!used){inst.push_back({n,e});used=true;} b.push_back({key,(int)inst.size()-1}); std::sort(b.begin(),b.end()); if((int)b.size()>per)b.pop_back(); } } }
  /* greedy cover of rare guards */
  fprintf(stderr,"cmd %d: %ld graphs, %zu/%u guards hit\n",cmd,cnt,best.size(),NG);
  std::vector<std::pair<long,uint32_t>> o; for(auto&f:freq) o.push_back({f.second,f.first}); std::sort(o.begin(),o.end()); std::set<int> out; 
  for(auto&x:o){ if(x.first>cnt/20) break; auto&b=best[x.second]; int c=0; for(auto&y:b) if(out.count(y.second)) c++; for(auto&y:b){ if(c>=per)break; if(!out.count(y.second)){out.insert(y.second);c++;} } }
  for(int i:out){ printf("%d %d",cmd,inst[i].first); for(auto x:inst[i].second)printf(" %d,%d",x.first,x.second); printf("\n"); }
  fprintf(stderr,"rarest:"); for(int i=0;i<12&&i<(int)o.size();i++)fprintf(stderr," %ld",o[i].first); fprintf(stderr," instances %zu\n",out.size());
}

#include "graphLib.h"
#include "homeomorphSearch/graphK23Search.h"
#include "homeomorphSearch/graphK33Search.h"
#include "homeomorphSearch/graphK4Search.h"
#include "planarityRelated/graphDrawPlanar.h"
#include <stdlib.h>
#include <string.h>
/* returns verdict*2+bad */
int run(int n,int m,const int*uv,int cmd,int lib){ static int fl[]={EMBEDFLAGS_PLANAR,EMBEDFLAGS_OUTERPLANAR,EMBEDFLAGS_SEARCHFORK23,EMBEDFLAGS_SEARCHFORK33,EMBEDFLAGS_SEARCHFORK4,EMBEDFLAGS_DRAWPLANAR};
 graphP g=gp_New(); gp_InitGraph(g,n); for(int i=0;i<m;i++) if(gp_DynamicAddEdge(g,uv[2*i],0,uv[2*i+1],0)!=OK) abort();
 if(cmd==2)gp_AttachK23Search(g); if(cmd==3)gp_AttachK33Search(g); if(cmd==4)gp_AttachK4Search(g); if(cmd==5)gp_AttachDrawPlanar(g);
 graphP o=gp_DupGraph(g); int r=gp_Embed(g,fl[cmd]),bad=0; if(r!=OK&&r!=NONEMBEDDABLE)bad=1; else if(r==NONEMBEDDABLE||cmd<2||cmd==5){ if(lib){ if(gp_TestEmbedResultIntegrity(g,o,r)!=r)bad=1; gp_SortVertices(g);} else gp_SortVertices(g);
  if(r==NONEMBEDDABLE&&cmd<5){ int d3=0,d4=0,d2=0,oth=0; static char a[64][64]; memset(a,0,sizeof a); for(int i=0;i<m;i++)a[uv[2*i]][uv[2*i+1]]=a[uv[2*i+1]][uv[2*i]]=1;
   for(int v=1;v<=n;v++){int d=0; for(int e=gp_GetFirstArc(g,v);gp_IsArc(e);e=gp_GetNextArc(g,e)){d++; int w=gp_GetNeighbor(g,e); if(w<1||w>n||!a[v][w])bad=1; else a[v][w]=0;} if(d==3)d3++; else if(d==4)d4++; else if(d==2)d2++; else if(d)oth++;}
   if(oth)bad=1; if(cmd==3&&!(d3==6&&!d4))bad=1; if(cmd==4&&!(d3==4&&!d4))bad=1; if(cmd==2&&!(d3==2&&!d4))bad=1; if(cmd==0&&!((d3==6&&!d4)||(d4==5&&!d3)))bad=1; if(cmd==1&&!((d3==4&&!d4)||(d3==2&&!d4)))bad=1; } }
 gp_Free(&g); gp_Free(&o); return (r+1)*2+bad; }

#include "graphLib.h"
#include "homeomorphSearch/graphK23Search.h"
#include "homeomorphSearch/graphK33Search.h"
#include "homeomorphSearch/graphK4Search.h"
#include "planarityRelated/graphDrawPlanar.h"
#include <stdlib.h>
void *mk(int n,int m,const int*uv,int cmd){ graphP g=gp_New(); gp_InitGraph(g,n); for(int i=0;i<m;i++) if(gp_DynamicAddEdge(g,uv[2*i],0,uv[2*i+1],0)!=OK) abort();
 if(cmd==2)gp_AttachK23Search(g); if(cmd==3)gp_AttachK33Search(g); if(cmd==4)gp_AttachK4Search(g); if(cmd==5)gp_AttachDrawPlanar(g); return g;}
int emb(void*g,int cmd){ int fl[]={EMBEDFLAGS_PLANAR,EMBEDFLAGS_OUTERPLANAR,EMBEDFLAGS_SEARCHFORK23,EMBEDFLAGS_SEARCHFORK33,EMBEDFLAGS_SEARCHFORK4,EMBEDFLAGS_DRAWPLANAR}; return gp_Embed((graphP)g,fl[cmd]);}
void fr(void*g){ graphP h=g; gp_Free(&h);}

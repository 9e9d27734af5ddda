// Compares, on random term DAGs and inputs, the bit-blasted circuits with the concrete semantics used by the replayer.
#include "terms.h"
#include <random>
int main(){ std::mt19937_64 R(7); int bad=0;
 for(int it=0; it<400 && bad<5; it++){ Aig G; Terms T(G);
  std::vector<TermId> p; std::vector<uint64_t> v; TermId x=T.mk(T_VAR,64,0,0,1), y=T.mk(T_VAR,64,0,0,2);
  uint64_t xv=R()%3?R()%8:R(), yv=R()%3?R()%8:R(); p={x,y}; v={xv,yv}; std::string d; bool ok=true;
  for(int k=0;k<8&&ok;k++){ int o=T_ADD+R()%(T_CTLZ-T_ADD+1); int i=R()%p.size(), j=R()%p.size(); bool un=o==T_ZEXT||o==T_SEXT||o==T_TRUNC||o==T_CTPOP||o==T_CTTZ||o==T_CTLZ;
   int aw=T.t[p[i]].width, w=aw; TermId a=p[i],b=0; uint64_t bv=0; 
   if(o>=T_EQ&&o<=T_SGE) w=1; if(o==T_TRUNC){ if(aw<2) continue; w=aw==64?32:aw/2;} if(o==T_ZEXT||o==T_SEXT){ if(aw==64) continue; w=64; }
   if(!un){ if(R()%2){ bv=R()%3?R()%4:R(); bv&= aw==64?~0ull:(1ull<<aw)-1; if(o==T_SHL||o==T_LSHR||o==T_ASHR) bv%=aw; b=T.cst(aw,bv);} else { if(T.t[p[j]].width!=aw) continue; b=p[j]; bv=v[j];} }
   uint64_t r; if(!T.fold(o,w,v[i],bv,aw,r)) continue; if((o==T_SHL||o==T_LSHR||o==T_ASHR)&&bv>=(uint64_t)aw) continue;
   TermId t; try { t=T.op(o,w,a,b); } catch (Unsupported&) { continue; } p.push_back(t); v.push_back(r); d+=" t"+std::to_string(p.size()-1)+"=op"+std::to_string(o)+"/"+std::to_string(w)+"(t"+std::to_string(i)+","+(b?std::to_string(bv):"")+")"; 
   auto bits=T.blast(t); auto bx=T.blast(x), by=T.blast(y);
   std::vector<char> val(G.nodes.size()); for(uint32_t n=1;n<G.nodes.size();n++){ if(G.nodes[n].a==~0u){ val[n]=0; for(int q=0;q<64;q++){ if(bx[q]>>1==n) val[n]=xv>>q&1; if(by[q]>>1==n) val[n]=yv>>q&1; } } else { auto L=[&](Lit l){return val[l>>1]^(l&1);}; val[n]=L(G.nodes[n].a)&L(G.nodes[n].b);} }
   uint64_t got=0; for(size_t q=0;q<bits.size();q++) got|=(uint64_t)(val[bits[q]>>1]^(bits[q]&1))<<q;
   if(got!=r){ printf("BAD x=%lx y=%lx %s got %lx want %lx (aw %d)\n",xv,yv,d.c_str(),got,r,aw); bad++; ok=false; }
  } }
 printf("selftest: %d mismatches\n",bad); return bad != 0; }

/* Random legal environment for the extracted cache (see csim.py). */
static uint64_t rs;
static uint64_t rn(void){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs*0x2545F4914F6CDD1Dull; }
static uint64_t rb(int w){ return w>=64?rn():(rn()>>(64-w)); }
static unsigned ru(unsigned n){ return (unsigned)((rn()>>32)%n); }
static double rf(void){ return (rn()>>11)*(1.0/9007199254740992.0); }
static b1024 rwide(int w){ b1024 v=0; for(int i=0;i<w;i+=64) v|=((b1024)rn())<<i; return w>=1024?v:(v&((((b1024)1)<<w)-1)); }
typedef uint64_t u64;
static u64 wmask(int w){return w>=64?~0ull:((1ull<<w)-1);}
typedef struct { u64 line; unsigned char b[LB]; int used; } Ln;
#define NL 256
static Ln tab[NL]; static int ntab;
static Ln*getln(u64 line){ unsigned h=(unsigned)((line*0x9E3779B97F4A7C15ull)>>56)%NL;
  for(;;h=(h+1)%NL){ if(tab[h].used&&tab[h].line==line) return &tab[h];
    if(!tab[h].used){ if(ntab>=NL-1) return &tab[h]; ntab++; tab[h].used=1; tab[h].line=line; for(int i=0;i<LB;i++) tab[h].b[i]=rn()>>56; return &tab[h]; } } }
typedef struct { int type; u64 opq, addr; uint32_t old; } Mq;
static Mq mq[4]; static int nmq;
static uint32_t amo(int t,uint32_t o,uint32_t x){ switch(t){case 3:return o+x;case 4:return o&x;case 5:return o|x;case 6:return x;
 case 7:return (int32_t)o<(int32_t)x?o:x;case 8:return o<x?o:x;case 9:return (int32_t)o>(int32_t)x?o:x;case 10:return o>x?o:x;default:return o^x;} }
static unsigned char active[NCK+1];
static int vk,vn,vc;
static u64 hot[16]; static int nhot;
static u64 cyc_total,req_total,runs;
static int record, resets; /* resets: only look after a reset in mid-run */

static int run(u64 seed,int cycles){
  rs=seed*0x9E3779B97F4A7C15ull+0x1234567; for(int i=0;i<8;i++)rn();
  zero_state(); clear_srams(); memset(rep,0,sizeof rep); memset(tab,0,sizeof tab); ntab=0; nmq=0;
  int nset=1+ru(2), ntag=2+ru(3);
  u64 sets[2]={rb(IDXW),rb(IDXW)}; if(ru(2)) sets[0]=ru(2)?0:NSETS-1;
  nhot=0; u64 ptag=0;
  if(nset==2&&ru(3)==0) sets[1]=(sets[0]^(1ull<<ru(IDXW?IDXW:1)))&wmask(IDXW);
  for(int t=0;t<ntag;t++){ u64 tag=rb(TAGW);
    if(t&&ru(2)) tag=ptag^(1ull<<(ru(3)?ru(TAGW):TAGW-1));
    if(NDICT>1&&ru(4)==0) tag=DICT[ru(NDICT)]>>(ru(2)?0:(OFFW+IDXW));
    if(ru(8)==0) tag=ru(4); if(ru(16)==0) tag=wmask(TAGW);
    tag&=wmask(TAGW); ptag=tag;
    for(int s=0;s<nset;s++) hot[nhot++]=((tag<<IDXW)|sets[s])<<OFFW; }
  if(ru(3)==0&&NDICT>1) hot[ru(nhot)]=DICT[ru(NDICT)]&wmask(AW)&~(u64)(LB-1);
  u64 A=hot[ru(nhot)]|ru(LB);
  S_A=A; rows();
  static const float mixes[9][5]={{4,4,1,.3,.3},{6,6,0,0,0},{3,3,2,1,1},{4,6,2,.2,0},{2,4,0,.5,.5},{4,4,1,1,0},{4,4,1,0,1},{1,1,3,.5,.5},{5,2,.2,.1,.1}};
  const float*mix=mixes[ru(9)];
  double tot=mix[0]+mix[1]+mix[2]+mix[3]+mix[4];
  static const double pens[3]={.2,.6,1}; double pen=pens[ru(3)];
  static const double prs[6][2]={{1,1},{1,1},{.5,1},{1,.5},{.5,.5},{.2,.9}}; const double*pr=prs[ru(6)];
  static const double pms[3]={1,.5,.1}; double pmem=pms[ru(3)];
  double pext=ru(3)==0?.02:0, pdict=ru(3)==0?.3:.02, prst=resets?.02:ru(8)==0?.004:0; int nrst=0;
  int narrow=ru(2), nops=ru(4)==0;
  int rst=1+ru(3), waitc=0, idlec=0, pendn=0; int warm=0;
  for(int cyc=0;cyc<cycles;cyc++){
    if(rst==0&&cyc>10&&rf()<prst) rst=1+ru(2), nrst++;
    int reset=rst>0; if(rst)rst--;
    zero_in(); load_srams();
    X_reset=reset;
    if(!reset){ X_cresp_rdy=rf()<pr[0]; X_mreq_rdy=rf()<pr[1]; }
    S_REP=rep[(A>>OFFW)&(NSETS-1)];
    f_raddr(); I_REP=rep[rep_raddr];
    f_early();
    if(!reset){
      if(X_creq_rdy && rf()<pen){
        double r=rf()*tot; int k=0; while(k<4&&r>=mix[k]){r-=mix[k];k++;}
        u64 a=hot[ru(nhot)]; unsigned off=narrow?(ru(4)*4)%LB:ru(LB);
        if(rf()<.4){ a=A&~(u64)(LB-1); off=A&(LB-1); if(ru(4)==0) off=ru(LB); }
        unsigned full=DW/8, sz=full, ln=0;
        if(ru(2)){ unsigned j=ru(LENW+1); sz=1u<<j; ln=sz==full?0:sz; }
        if(k==1&&DBL&&ru(8)==0){ ln=3; sz=8; }
        int ty=k==0?0:k==1?1:k==3?14:15;
        if(k==2){ ty=3+ru(9); sz=4; ln=DW==32?0:4; }
        a|=off&~(sz-1);
        if(k>=3&&ru(2)) a=0, ln=0;
        X_creq_en=1; X_creq_type_=ty; X_creq_opaque=rb(OPQ); X_creq_addr=a; X_creq_len=ln; X_creq_data=(b1024)rwide(DW);
        if(NDICT>1&&rf()<pdict){ int w=ru(3); u64 d=DICT[ru(NDICT)];
          if(w==0) X_creq_opaque=d; else X_creq_data=d; }
        if(ru(16)==0) X_creq_data=ru(2)?0:(b1024)-1;
        req_total++; pendn++;
      } else if(ru(2)){ X_creq_type_=rb(4); X_creq_opaque=rb(OPQ); X_creq_addr=ru(2)?hot[ru(nhot)]:rb(AW); X_creq_len=rb(LENW); X_creq_data=(b1024)rwide(DW); }
      if(rf()<pext){ unsigned char b=rn()>>56; getln(A>>OFFW)->b[A&(LB-1)]=b; I_EXT=1; I_EXTV=b; }
      if(nmq&&X_mresp_rdy&&rf()<pmem){
        Mq m=mq[0]; nmq--; for(int i=0;i<nmq;i++)mq[i]=mq[i+1];
        X_mresp_en=1; X_mresp_type_=m.type; X_mresp_opaque=m.opq;
        if(m.type==0){ Ln*l=getln(m.addr>>OFFW); b1024 v=0; for(int i=0;i<LB;i++) v|=((b1024)l->b[i])<<(8*i); X_mresp_data=v; }
        else if(m.type>=3&&m.type<=11) X_mresp_data=(b1024)m.old; else X_mresp_data=(b1024)rwide(LINE);
      }
    }
    f_ports();
    int free_=X_cresp_rdy&&X_mreq_rdy&&(nmq==0||X_mresp_en);
    if(X_mreq_en&&!reset){
      int t=X_mreq_type_; u64 ad=(u64)X_mreq_addr; uint32_t old=0;
      Ln*l=getln(ad>>OFFW);
      if(t==1){ for(int i=0;i<LB;i++) if((X_mreq_wr_mask>>(i/4))&1) l->b[i]=(unsigned char)(X_mreq_data>>(8*i)); }
      else if(t>=3&&t<=11){ unsigned o=ad&(LB-1)&~3u; for(int i=0;i<4;i++) old|=(uint32_t)l->b[o+i]<<(8*i);
        uint32_t nw=amo(t,old,(uint32_t)(X_mreq_data&0xffffffffu)); for(int i=0;i<4;i++) l->b[o+i]=nw>>(8*i);
        if((ad>>2)==(A>>2)) I_AMOV=l->b[A&(LB-1)]; }
      if(nmq<4){ mq[nmq].type=t; mq[nmq].opq=(u64)X_mreq_opaque; mq[nmq].addr=ad; mq[nmq].old=old; nmq++; }
    }
    f_full();
    if(record) trace_line();
    cyc_total++;
    if(!reset){
      int look=!resets||nrst;
      for(int i=0;i<NCK;i++) if(look&&active[i]&&!ck[i]){ vk=0;vn=i;vc=cyc; return 1; }
      for(int i=0;i<NOB;i++) if(look&&!ob[i]){ vk=1;vn=i;vc=cyc; return 1; }
      if(X_cresp_en&&pendn){ pendn--; waitc=0; }
      if(look&&active[NCK]){
        if(pendn&&free_&&++waitc>6*NLINES+60){ vk=2;vn=0;vc=cyc; return 1; }
        if(!pendn){ if(X_creq_rdy) idlec=0; else if(++idlec>NLINES+40){ vk=2;vn=1;vc=cyc; return 1; } } else idlec=0;
      }
    }
    apply_srams();
    if(reset) memset(rep,0,sizeof rep); else if(rep_wen) rep[rep_waddr]=rep_wdata;
    commit();
    if(reset){ ghost_reset(getln(A>>OFFW)->b[A&(LB-1)]); nmq=0; pendn=0; waitc=idlec=0; }
    if(nmq>=4) { return 0; }
  }
  return 0;
}

int main(int argc,char**argv){
  u64 seed=strtoull(argv[1],0,10); double secs=atof(argv[2]);
  active[NCK]=0; resets=argc>4;
  for(char*p=strtok(argv[3],",");p;p=strtok(0,",")){ if(*p=='-')break; if(*p=='w') active[NCK]=1; else active[atoi(p)]=1; }
  struct timespec t0,t; clock_gettime(CLOCK_MONOTONIC,&t0);
  int cycles=400+2*NLINES;
  for(u64 k=0;;k++){
    u64 sd=seed*1000003ull+k; runs++;
    if(run(sd,cycles)){
      /* shortest of a few */
      int best=vc; u64 bs=sd;
      record=1; printf("V %s %d %d\nA %llx\n",vk==0?"ck":vk==1?"ob":"wd",vn,vc,(unsigned long long)S_A); run(bs,best+1);
      break; }
    clock_gettime(CLOCK_MONOTONIC,&t);
    if((t.tv_sec-t0.tv_sec)+(t.tv_nsec-t0.tv_nsec)*1e-9>secs) break;
  }
  printf("S %llu %llu %llu\n",(unsigned long long)cyc_total,(unsigned long long)req_total,(unsigned long long)runs);
  return 0;
}

// Binary decision diagrams and bit-vector transfer functions for the content
// domain of the analyser.  Node 0 is false, node 1 is true.
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

typedef int32_t N;
static int32_t *V; static N *LO, *HI; static N *NXT;
static int64_t cap, cnt;
static N *HT; static int64_t hcap;
typedef struct { N f,g,h,r; } CE;
static CE *CT; static int64_t ccap;
#define LEAFVAR 0x7fffffff

static uint64_t mix(uint64_t a,uint64_t b,uint64_t c){
	uint64_t h=a*0x9E3779B97F4A7C15ull ^ (b*0xC2B2AE3D27D4EB4Full+0x165667B19E3779F9ull) ^ (c*0xD6E8FEB86659FD93ull);
	h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32; return h;
}
int bdd_init(void){
	free(V);free(LO);free(HI);free(NXT);free(HT);free(CT);
	cap=1<<16; V=malloc(cap*sizeof *V);LO=malloc(cap*sizeof *LO);HI=malloc(cap*sizeof *HI);NXT=malloc(cap*sizeof *NXT);
	hcap=1<<17; HT=malloc(hcap*sizeof *HT); memset(HT,0xff,hcap*sizeof *HT);
	ccap=1<<20; CT=malloc(ccap*sizeof *CT); memset(CT,0xff,ccap*sizeof *CT);
	V[0]=V[1]=LEAFVAR; LO[0]=HI[0]=0; LO[1]=HI[1]=1; cnt=2; return 0;
}
int64_t bdd_count(void){return cnt;}
static N mk(int32_t v,N lo,N hi){
	if(lo==hi) return lo;
	uint64_t h=mix(v,lo,hi)&(hcap-1);
	for(N n=HT[h];n>=0;n=NXT[n]) if(V[n]==v&&LO[n]==lo&&HI[n]==hi) return n;
	if(cnt==cap){
		cap*=2; V=realloc(V,cap*sizeof *V);LO=realloc(LO,cap*sizeof *LO);HI=realloc(HI,cap*sizeof *HI);NXT=realloc(NXT,cap*sizeof *NXT);
		if(!V||!LO||!HI||!NXT){fprintf(stderr,"bdd: out of memory\n");exit(3);}
		hcap*=2; HT=realloc(HT,hcap*sizeof *HT); memset(HT,0xff,hcap*sizeof *HT);
		for(int64_t i=2;i<cnt;i++){uint64_t k=mix(V[i],LO[i],HI[i])&(hcap-1);NXT[i]=HT[k];HT[k]=i;}
		h=mix(v,lo,hi)&(hcap-1);
		if(ccap<(1<<23)){ccap*=2; CT=realloc(CT,ccap*sizeof *CT); memset(CT,0xff,ccap*sizeof *CT);}
	}
	N n=cnt++; V[n]=v;LO[n]=lo;HI[n]=hi;NXT[n]=HT[h];HT[h]=n; return n;
}
N bdd_var(int v){return mk(v,0,1);}
int bdd_top(N n){return V[n];} N bdd_lo(N n){return LO[n];} N bdd_hi(N n){return HI[n];}
N bdd_ite(N f,N g,N h){
	if(f==1)return g; if(f==0)return h; if(g==h)return g; if(g==1&&h==0)return f;
	if(f==g) g=1; else if(f==h) h=0;
	if(g==1&&h==0)return f; if(g==h) return g;
	// normalise and/or argument order
	if(h==0 && g>1 && g<f){N t=f;f=g;g=t;}
	else if(g==1 && h>1 && h<f){N t=f;f=h;h=t;}
	uint64_t k=mix(f,g,h)&(ccap-1);
	if(CT[k].f==f&&CT[k].g==g&&CT[k].h==h) return CT[k].r;
	int32_t v=V[f]; if(V[g]<v)v=V[g]; if(V[h]<v)v=V[h];
	N f0=V[f]==v?LO[f]:f,f1=V[f]==v?HI[f]:f,g0=V[g]==v?LO[g]:g,g1=V[g]==v?HI[g]:g,h0=V[h]==v?LO[h]:h,h1=V[h]==v?HI[h]:h;
	N r1=bdd_ite(f1,g1,h1), r0=bdd_ite(f0,g0,h0);
	N r=mk(v,r0,r1);
	k=mix(f,g,h)&(ccap-1);
	CT[k]=(CE){f,g,h,r}; return r;
}
N bdd_not(N a){return bdd_ite(a,0,1);}
N bdd_and(N a,N b){return bdd_ite(a,b,0);}
N bdd_or(N a,N b){return bdd_ite(a,1,b);}
N bdd_xor(N a,N b){return a==b?0:bdd_ite(a,bdd_not(b),b);}

// memo of unary recursions (exists, permute, support): one stamped slot per node, so that a new run costs nothing
static uint32_t *mst; static N *mval; static int64_t mcap; static uint32_t mgen;
static void mreset(void){
	if(mcap<cap){mst=realloc(mst,cap*sizeof *mst);mval=realloc(mval,cap*sizeof *mval);memset(mst+mcap,0,(cap-mcap)*sizeof *mst);mcap=cap;}
	if(++mgen==0){memset(mst,0,mcap*sizeof *mst);mgen=1;}
}
// only nodes that existed at mreset() are looked up, and mcap was at least their number
static int mget(N n,N*r){if(n<mcap&&mst[n]==mgen){*r=mval[n];return 1;}return 0;}
static void mput(N n,N r){if(n<mcap){mst[n]=mgen;mval[n]=r;}}
static const uint8_t *keepv; static int nkeep;
static N ex(N f){
	if(f<2)return f; N r; if(mget(f,&r))return r;
	N a=ex(LO[f]),b=ex(HI[f]); int v=V[f];
	r=(v<nkeep&&keepv[v])? mk(v,a,b):bdd_or(a,b); mput(f,r);return r;
}
// existentially quantify every variable v with keep[v]==0 or v>=n
static N bdd_keep_(N f,const uint8_t*keep,int n){keepv=keep;nkeep=n;mreset();return ex(f);}
static const int32_t *pm; static int npm;
static N per(N f){
	if(f<2)return f; N r; if(mget(f,&r))return r;
	N a=per(LO[f]),b=per(HI[f]); int v=V[f]; int w=v<npm?pm[v]:v; if(w<0)w=v;
	r=bdd_ite(bdd_var(w),b,a); mput(f,r); return r;
}
N bdd_permute(N f,const int32_t*map,int n){pm=map;npm=n;mreset();return per(f);}
void bdd_permute_many(const N*f,int k,const int32_t*map,int n,N*out){pm=map;npm=n;mreset();for(int i=0;i<k;i++)out[i]=per(f[i]);}
static uint8_t *sup;static int32_t *supl;static int nsup,csup;
static void supneed(int v){ if(v>=csup){int n=csup?csup:1024;while(n<=v)n*=2;sup=realloc(sup,n);memset(sup+csup,0,n-csup);supl=realloc(supl,n*sizeof *supl);csup=n;} }
static void sp(N f){ if(f<2)return; N r; if(mget(f,&r))return; mput(f,1); int v=V[f]; supneed(v); if(!sup[v]){sup[v]=1;supl[nsup++]=v;} sp(LO[f]); sp(HI[f]); }
static int icmp(const void*a,const void*b){return *(const int32_t*)a-*(const int32_t*)b;}
// variables k functions depend on, ascending: returns how many, fetched with bdd_support_get
int bdd_support(const N*f,int k){mreset();nsup=0;for(int i=0;i<k;i++)sp(f[i]);for(int i=0;i<nsup;i++)sup[supl[i]]=0;qsort(supl,nsup,sizeof *supl,icmp);return nsup;}
void bdd_support_get(int32_t*o){memcpy(o,supl,nsup*sizeof *o);}
static int32_t *xm;static int cxm;
static void xneed(int v){ if(v>=cxm){int n=cxm?cxm:1024;while(n<=v)n*=2;xm=realloc(xm,n*sizeof *xm);for(int i=cxm;i<n;i++)xm[i]=-1;cxm=n;} }
// variables a[0..n) are renamed to b[0..n)
void bdd_permute_pairs(const N*f,int k,const int32_t*a,const int32_t*b,int n,N*out){
	for(int i=0;i<n;i++){xneed(a[i]);xm[a[i]]=b[i];}
	pm=xm;npm=cxm;mreset();for(int i=0;i<k;i++)out[i]=per(f[i]);
	for(int i=0;i<n;i++)xm[a[i]]=-1;
}
static uint8_t *kb;static int ckb;
N bdd_keep_list(N f,const int32_t*a,int n){
	for(int i=0;i<n;i++){int v=a[i];if(v>=ckb){int m=ckb?ckb:1024;while(m<=v)m*=2;kb=realloc(kb,m);memset(kb+ckb,0,m-ckb);ckb=m;}kb[v]=1;}
	N r=bdd_keep_(f,kb,ckb); for(int i=0;i<n;i++)kb[a[i]]=0; return r;
}
// is a AND NOT b unsatisfiable (a implies b)?
int bdd_implies(N a,N b){return bdd_ite(a,b,1)==1;}
// one satisfying assignment: out[v]=0/1 for variables on the path
int bdd_sat(N f,int8_t*out){ if(f==0)return 0; while(f>1){ if(LO[f]!=0){out[V[f]]=0;f=LO[f];}else{out[V[f]]=1;f=HI[f];} } return 1;}

enum {AND,OR,XOR,ADD,SUB,MUL,USUBSAT,SSUBSAT,UADDSAT,SADDSAT,EQ,ULT,SLT,UMAX,UMIN};
static N addc(const N*a,const N*b,int w,N c,N*o){ // returns carry out
	for(int i=0;i<w;i++){N x=bdd_xor(a[i],b[i]);N s=bdd_xor(x,c);c=bdd_ite(x,c,a[i]);o[i]=s;} return c;
}
static N ult(const N*a,const N*b,int w){N r=0;for(int i=0;i<w;i++){r=bdd_ite(bdd_xor(a[i],b[i]),b[i],r);}return r;}
static N slt(const N*a,const N*b,int w){N r=0;for(int i=0;i<w-1;i++)r=bdd_ite(bdd_xor(a[i],b[i]),b[i],r);return bdd_ite(bdd_xor(a[w-1],b[w-1]),a[w-1],r);}
static void sub(const N*a,const N*b,int w,N*o,N*bor){N t[128];for(int i=0;i<w;i++)t[i]=bdd_not(b[i]);N c=addc(a,t,w,1,o);*bor=bdd_not(c);}
// element-wise operation on n bits made of elements of width w; comparisons give one bit per element
int bv_op(int op,int n,int w,const N*a,const N*b,N*o){
	if(w>128) return -1;
	for(int e=0;e<n/w;e++){
		const N*x=a+e*w,*y=b+e*w;N*z=o+e*w;N t[128],u;
		switch(op){
		case AND:for(int i=0;i<w;i++)z[i]=bdd_and(x[i],y[i]);break;
		case OR:for(int i=0;i<w;i++)z[i]=bdd_or(x[i],y[i]);break;
		case XOR:for(int i=0;i<w;i++)z[i]=bdd_xor(x[i],y[i]);break;
		case ADD:addc(x,y,w,0,t);memcpy(z,t,w*sizeof(N));break;
		case SUB:sub(x,y,w,t,&u);memcpy(z,t,w*sizeof(N));break;
		case MUL:{N acc[128];for(int i=0;i<w;i++)acc[i]=0;
			for(int i=0;i<w;i++){ if(y[i]==0)continue; N sh[128];for(int j=0;j<w;j++)sh[j]=j<i?0:bdd_and(x[j-i],y[i]);addc(acc,sh,w,0,t);memcpy(acc,t,w*sizeof(N));}
			memcpy(z,acc,w*sizeof(N));break;}
		case USUBSAT:sub(x,y,w,t,&u);for(int i=0;i<w;i++)z[i]=bdd_ite(u,0,t[i]);break;
		case UADDSAT:u=addc(x,y,w,0,t);for(int i=0;i<w;i++)z[i]=bdd_ite(u,1,t[i]);break;
		case EQ:{N r=1;for(int i=w-1;i>=0;i--)r=bdd_ite(bdd_xor(x[i],y[i]),0,r);o[e]=r;break;}
		case ULT:o[e]=ult(x,y,w);break;
		case SLT:o[e]=slt(x,y,w);break;
		case UMAX:u=ult(x,y,w);for(int i=0;i<w;i++)t[i]=bdd_ite(u,y[i],x[i]);memcpy(z,t,w*sizeof(N));break;
		case UMIN:u=ult(x,y,w);for(int i=0;i<w;i++)t[i]=bdd_ite(u,x[i],y[i]);memcpy(z,t,w*sizeof(N));break;
		default:return -1;
		}
	}
	return 0;
}
// element-wise select: c has one bit per element
void bv_ite(int n,int w,const N*c,const N*a,const N*b,N*o){for(int i=0;i<n;i++)o[i]=bdd_ite(c[i/w],a[i],b[i]);}
void bv_not(int n,const N*a,N*o){for(int i=0;i<n;i++)o[i]=bdd_not(a[i]);}
// o[0..w) = entries[idx][0..w), entries is ne x w nodes, idx has k bits; out of range: dflt
static N muxrec(const N*ent,int ne,int w,int bit,const N*idx,int k,int64_t base,N dflt){
	if(k==0) return base<ne?ent[base*w+bit]:dflt;
	if(base>=ne) return dflt;
	if(idx[k-1]==0) return muxrec(ent,ne,w,bit,idx,k-1,base,dflt);
	if(idx[k-1]==1) return muxrec(ent,ne,w,bit,idx,k-1,base+((int64_t)1<<(k-1)),dflt);
	N lo=muxrec(ent,ne,w,bit,idx,k-1,base,dflt);
	N hi=muxrec(ent,ne,w,bit,idx,k-1,base+((int64_t)1<<(k-1)),dflt);
	return bdd_ite(idx[k-1],hi,lo);
}
void bv_mux(const N*ent,int ne,int w,const N*idx,int k,N dflt,N*o){for(int b=0;b<w;b++)o[b]=muxrec(ent,ne,w,b,idx,k,0,dflt);}

// ---------------------------------------------------------------------------
// Exact linear programming over affine rows kept in an arena.
typedef __int128 W;
typedef struct { int32_t n; int64_t at; int64_t chi; uint64_t clo; } Row;
static Row *RW; static int64_t nrw, crw;
static int32_t *RI; static int64_t *RC; static int64_t nri, cri;
void lp_reset(void){ nrw=0; nri=0; }
int64_t lp_used(void){ return nri+4*nrw; }
int32_t lp_row(int32_t n,const int32_t*ids,const int64_t*co,int64_t chi,uint64_t clo){
	if(nrw==crw){ crw=crw?2*crw:1<<12; RW=realloc(RW,crw*sizeof *RW); }
	while(nri+n>cri){ cri=cri?2*cri:1<<14; RI=realloc(RI,cri*sizeof *RI); RC=realloc(RC,cri*sizeof *RC); }
	memcpy(RI+nri,ids,n*sizeof *ids); memcpy(RC+nri,co,n*sizeof *co);
	RW[nrw]=(Row){n,nri,chi,clo}; nri+=n; return nrw++;
}
static W rconst(const Row*r){ return ((W)r->chi<<62)+(W)r->clo; }
static int small(W x){ return x==(W)(int64_t)x; }
static int mulo(W a,W b,W*r){ if(small(a)&&small(b)){ *r=a*b; return 0; } return __builtin_mul_overflow(a,b,r); }
static int step(W p,W a,W x,W b,W D,W*out){	// (p*a - x*b)/D
	W u,v,w;
	if(!a && (!x||!b)){ *out=0; return 0; }
	if(mulo(p,a,&u)||mulo(x,b,&v)||__builtin_sub_overflow(u,v,&w)) return 1;
	if(D==1) *out=w; else if(small(w)&&small(D)) *out=(int64_t)w/(int64_t)D; else *out=w/D;
	return 0;
}
// sign of a/b - c/d with b,d > 0
static int cmpq(W a,W b,W c,W d,int*ov){ W u,v; if(mulo(a,d,&u)||mulo(c,b,&v)){*ov=1;return 0;} return u<v?-1:u>v; }
static int32_t *sidx; static int64_t csidx; static W *TB; static int64_t ctb;
// minimum of the linear part of row `obj` over { rows >= 0 }.
// 0: out = numerator (2 words), denominator (2 words); 1: unbounded below; 2: infeasible; 3: overflow
int lp_solve(int32_t obj,int32_t nr,const int32_t*rows,int32_t nsym,int64_t*out){
	if(nsym>csidx){ sidx=realloc(sidx,nsym*sizeof *sidx); for(int64_t k=csidx;k<nsym;k++) sidx[k]=-1; csidx=nsym; }
	static int32_t *sl; static int64_t csl; if(csl<nsym){ csl=csidx; sl=realloc(sl,csl*sizeof *sl); }
	static int32_t *comp; static int64_t cc; if(cc<nr+1){ cc=2*nr+16; comp=realloc(comp,cc*sizeof *comp); }
	static char *in; static int64_t cin; if(cin<nr+1){ cin=2*nr+16; in=realloc(in,cin); }
	memset(in,0,nr);
	int m=0,n=0,rc=3; Row*o=&RW[obj];
	for(int k=0;k<o->n;k++){ int s=RI[o->at+k]; sidx[s]=m; sl[m++]=s; }
	for(int ch=1;ch;){
		ch=0;
		for(int i=0;i<nr;i++) if(!in[i]){
			Row*r=&RW[rows[i]]; int hit=0;
			for(int k=0;k<r->n;k++) if(sidx[RI[r->at+k]]>=0){hit=1;break;}
			if(!hit) continue;
			in[i]=1; comp[n++]=i;
			for(int k=0;k<r->n;k++){ int s=RI[r->at+k]; if(sidx[s]<0){ sidx[s]=m; sl[m++]=s; ch=1; } }
		}
	}
	int w=n+1;
	int64_t need=(int64_t)(m+2)*w; if(need>ctb){ ctb=2*need; TB=realloc(TB,ctb*sizeof *TB); }
	static int32_t *basis; static int64_t cb; if(cb<m+1){ cb=2*m+16; basis=realloc(basis,cb*sizeof *basis); }
	memset(TB,0,need*sizeof *TB);
#define T(j,k) TB[(int64_t)(j)*w+(k)]
	for(int k=0;k<n;k++){ Row*r=&RW[rows[comp[k]]]; for(int e=0;e<r->n;e++) T(sidx[RI[r->at+e]],k)=RC[r->at+e]; T(m+1,k)=rconst(r); }
	for(int e=0;e<o->n;e++) T(sidx[RI[o->at+e]],n)=RC[o->at+e];
	for(int k=0;k<m;k++) sidx[sl[k]]=-1;
	for(int j=0;j<m;j++){ if(T(j,n)<0) for(int k=0;k<w;k++) T(j,k)=-T(j,k); basis[j]=n+j; for(int k=0;k<w;k++) T(m,k)+=T(j,k); }
	W D=1; int ov=0;
#define PIVOT(r_,c_) do{ int R_=(r_),C_=(c_); W p=T(R_,C_); \
	for(int j=0;j<m+2;j++) if(j!=R_){ W x=T(j,C_); \
		for(int k=0;k<w;k++) if(step(p,T(j,k),x,T(R_,k),D,&T(j,k))) goto end; } \
	D=p; basis[R_]=C_; }while(0)
	// note: row j is updated in place; x is read before, so T(j,C_) becomes zero last by value
	for(int it=0;;it++){
		if(it>4000) goto end;
		int c=-1;
		for(int k=0;k<n;k++) if(T(m,k)>0 && (c<0 || (it<60 && T(m,k)>T(m,c)))) { c=k; if(it>=60) break; }
		if(c<0) break;
		int b=-1;
		for(int j=0;j<m;j++) if(T(j,c)>0){
			if(b<0){b=j;continue;}
			int s=cmpq(T(j,n),T(j,c),T(b,n),T(b,c),&ov); if(ov) goto end;
			if(s<0||(s==0&&basis[j]<basis[b])) b=j;
		}
		if(b<0) break;
		PIVOT(b,c);
	}
	for(int j=0;j<m;j++) if(basis[j]>=n && T(j,n)!=0){ rc=1; goto end; }
	for(int j=0;j<m;j++) if(basis[j]>=n){
		int c=-1; for(int k=0;k<n;k++) if(T(j,k)!=0){c=k;break;}
		if(c<0) continue;
		if(T(j,c)<0) for(int k=0;k<w;k++) T(j,k)=-T(j,k);
		PIVOT(j,c);
	}
	for(int it=0;;it++){
		if(it>4000) goto end;
		int c=-1;
		for(int k=0;k<n;k++) if(T(m+1,k)<0 && (c<0 || (it<60 && T(m+1,k)<T(m+1,c)))) { c=k; if(it>=60) break; }
		if(c<0) break;
		int b=-1;
		for(int j=0;j<m;j++) if(basis[j]<n && T(j,c)>0){
			if(b<0){b=j;continue;}
			int s=cmpq(T(j,n),T(j,c),T(b,n),T(b,c),&ov); if(ov) goto end;
			if(s<0||(s==0&&basis[j]<basis[b])) b=j;
		}
		if(b<0){ rc=2; goto end; }
		PIVOT(b,c);
	}
	{ W a=T(m+1,n),d=D; out[0]=(int64_t)(a>>62); out[1]=(int64_t)(a&((((W)1)<<62)-1)); out[2]=(int64_t)(d>>62); out[3]=(int64_t)(d&((((W)1)<<62)-1)); rc=0; }
end:
	return rc;
#undef T
}

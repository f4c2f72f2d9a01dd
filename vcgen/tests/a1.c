struct L {struct L*next; int v; char name[10];};
int g; 
static int spec_max(int a,int b){ return a>b?a:b; }
int mx(int a,int b) __CPROVER_ensures(__CPROVER_return_value==spec_max(a,b)) __CPROVER_assigns();
int mx(int a,int b){ if(a<b) return b; return a;}
int set(struct L*p, int v) __CPROVER_ensures(p->v==v && g==__CPROVER_old(g)+1) __CPROVER_assigns(p->v,g);
int set(struct L*p, int v){ p->v=v; g++; return 0;}
int use(struct L*p, struct L*q) __CPROVER_requires(p!=q && g<1000) __CPROVER_ensures(p->v==3 && q->v==4 && g==__CPROVER_old(g)+2) __CPROVER_assigns(p->v,q->v,g);
int use(struct L*p, struct L*q){ set(p,3); set(q,4); return 0;}
static int rec_len(struct L*p){ if(!p) return 0; return 1+rec_len(p->next);}
void verif_inv_len(struct L*p,int n) __CPROVER_ensures(n+rec_len(p)==rec_len(__CPROVER_old(p)));
int len(struct L*p) __CPROVER_ensures(__CPROVER_return_value==rec_len(p)) __CPROVER_assigns();
int len(struct L*p){ int n=0; for(;p;p=p->next){ verif_inv_len(p,n); n++;} return n;}
int cnt(struct L*p, int k) __CPROVER_ensures(g==__CPROVER_old(g)) __CPROVER_assigns();
int cnt(struct L*p,int k){ int n=0; for(;p;p=p->next) if(p->v==k) return n; return g;}
int sum(void) __CPROVER_ensures(__CPROVER_return_value==45) __CPROVER_assigns();
int sum(void){ char b[10]; int i,s=0; for(i=0;i<10;i++) b[i]=i; for(i=0;i<10;i++) s+=b[i]; return s;}
static int rec_cmp(const char*a,const char*b){ if(*a!=*b) return *a-*b; if(!*a) return 0; return rec_cmp(a+1,b+1);}
void verif_inv_cmp(const char*a,const char*b) __CPROVER_ensures(rec_cmp(a,b)==rec_cmp(__CPROVER_old(a),__CPROVER_old(b)));
int cmp(const char*a,const char*b) __CPROVER_ensures(__CPROVER_return_value==rec_cmp(a,b)) __CPROVER_assigns();
int cmp(const char*a,const char*b){ while(*a==*b){ verif_inv_cmp(a,b); if(!*a) return 0; a++;b++;} return *a-*b;}
int bad(int a) __CPROVER_ensures(__CPROVER_return_value>a) __CPROVER_assigns();
int bad(int a){ g=1; return a+1;}

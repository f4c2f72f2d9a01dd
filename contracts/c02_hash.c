/* C02: the tables of names (hash.c): what is found is the first entry of the name's bucket that has the name; adding, removing
 * and renaming change exactly the links they must. */
struct Client; struct Channel;
void verif_inv_hRemClient(struct Client *cptr, struct Client *tmp, unsigned hashv);
void verif_inv_hRemChannel(struct Channel *chptr, struct Channel *tmp, unsigned hashv);
void verif_inv_hSeekClient(const char *name, int TMask, struct Client *prev, struct Client *cptr, unsigned hashv);
void verif_inv_hSeekChannel(const char *name, struct Channel *prev, struct Channel *chptr, unsigned hashv);
#include "c01_hash.c"
#define SAME(a, b) rec_same(a, b)
#define BUCKET(n) spec_bucket(n)
static unsigned spec_bucket(const char *n)
{
  return rec_hash(crc32hash[spec_fold((unsigned char)*n)], n + 1) % HASHSIZE;
}
static int spec_hit(struct Client *c, const char *name, int mask) { return (c->cli_status & mask) && rec_same(name, c->cli_name); }
/* the first client of a chain that has the name and one of the states */
static struct Client *rec_first(struct Client *c, const char *name, int mask)
{
  if (!c) return (struct Client *)0;
  if (spec_hit(c, name, mask)) return c;
  return rec_first(c->cli_hnext, name, mask);
}
static struct Channel *rec_firstch(struct Channel *c, const char *name)
{
  if (!c) return (struct Channel *)0;
  if (rec_same(name, c->chname)) return c;
  return rec_firstch(c->hnext, name);
}
/* the entry of a chain before x */
static struct Client *rec_pred(struct Client *c, struct Client *x)
{
  if (!c) return (struct Client *)0;
  if (c->cli_hnext == x) return c;
  return rec_pred(c->cli_hnext, x);
}
static struct Channel *rec_predch(struct Channel *c, struct Channel *x)
{
  if (!c) return (struct Channel *)0;
  if (c->hnext == x) return c;
  return rec_predch(c->hnext, x);
}
static int rec_on(struct Client *c, struct Client *x)
{
  if (!c) return 0;
  if (c == x) return 1;
  return rec_on(c->cli_hnext, x);
}
static int rec_onch(struct Channel *c, struct Channel *x)
{
  if (!c) return 0;
  if (c == x) return 1;
  return rec_onch(c->hnext, x);
}
unsigned ghost_h, ghost_h2;                     /* the bucket concerned; that of the new name */
struct Client *ghost_x, *ghost_p;               /* the entry concerned and the one before it */
struct Channel *ghost_xch, *ghost_pch;
#define PIN(name) __CPROVER_requires(ghost_h == spec_bucket(name))
#define PINX(x) __CPROVER_requires(ghost_x == (x) && ghost_p == rec_pred(clientTable[ghost_h], ghost_x))
#define PINXCH(x) __CPROVER_requires(ghost_xch == (x) && ghost_pch == rec_predch(channelTable[ghost_h], ghost_xch))
int ircd_strcmp(const char *a, const char *b)
  __CPROVER_ensures((__CPROVER_return_value == 0) == (rec_same(a, b) != 0))
  __CPROVER_assigns();

int hAddClient(struct Client *cptr)
  __CPROVER_requires(cptr->cli_name[0] != 0)
  PIN(cptr->cli_name)
  __CPROVER_ensures(clientTable[ghost_h] == cptr && cptr->cli_hnext == __CPROVER_old(clientTable[ghost_h]) && __CPROVER_return_value == 0)
  __CPROVER_assigns(cptr->cli_hnext, clientTable[ghost_h]);
int hAddChannel(struct Channel *chptr)
  __CPROVER_requires(chptr->chname[0] != 0)
  PIN(chptr->chname)
  __CPROVER_ensures(channelTable[ghost_h] == chptr && chptr->hnext == __CPROVER_old(channelTable[ghost_h]) && __CPROVER_return_value == 0)
  __CPROVER_assigns(chptr->hnext, channelTable[ghost_h]);
/* a removal writes the head of the bucket or the link of the entry before, and the entry's own link */
#define WAS_HEAD verif_old_int(clientTable[ghost_h] == ghost_x)
#define WAS_HEADCH verif_old_int(channelTable[ghost_h] == ghost_xch)
int hRemClient(struct Client *cptr)
  __CPROVER_requires(cptr->cli_name[0] != 0 && cptr->cli_hnext != cptr)
  PIN(cptr->cli_name) PINX(cptr)
  __CPROVER_ensures(__CPROVER_return_value == (WAS_HEAD || ghost_p ? 0 : -1))
  __CPROVER_ensures(clientTable[ghost_h] == (WAS_HEAD ? __CPROVER_old(cptr->cli_hnext) : __CPROVER_old(clientTable[ghost_h])))
  __CPROVER_ensures(WAS_HEAD || !ghost_p || ghost_p->cli_hnext == __CPROVER_old(cptr->cli_hnext))
  __CPROVER_ensures(cptr->cli_hnext == (WAS_HEAD || ghost_p ? cptr : __CPROVER_old(cptr->cli_hnext)))
  __CPROVER_assigns(clientTable[ghost_h] == cptr || ghost_p: cptr->cli_hnext)
  __CPROVER_assigns(clientTable[ghost_h] == cptr: clientTable[ghost_h])
  __CPROVER_assigns(clientTable[ghost_h] != cptr && ghost_p: ghost_p->cli_hnext);
void verif_inv_hRemClient(struct Client *cptr, struct Client *tmp, unsigned hashv)
  __CPROVER_ensures(rec_pred(tmp, cptr) == ghost_p && hashv == ghost_h && clientTable[ghost_h] != cptr);
int hRemChannel(struct Channel *chptr)
  __CPROVER_requires(chptr->chname[0] != 0 && chptr->hnext != chptr)
  PIN(chptr->chname) PINXCH(chptr)
  __CPROVER_ensures(__CPROVER_return_value == (WAS_HEADCH || ghost_pch ? 0 : -1))
  __CPROVER_ensures(channelTable[ghost_h] == (WAS_HEADCH ? __CPROVER_old(chptr->hnext) : __CPROVER_old(channelTable[ghost_h])))
  __CPROVER_ensures(WAS_HEADCH || !ghost_pch || ghost_pch->hnext == __CPROVER_old(chptr->hnext))
  __CPROVER_ensures(chptr->hnext == (WAS_HEADCH || ghost_pch ? chptr : __CPROVER_old(chptr->hnext)))
  __CPROVER_assigns(channelTable[ghost_h] == chptr || ghost_pch: chptr->hnext)
  __CPROVER_assigns(channelTable[ghost_h] == chptr: channelTable[ghost_h])
  __CPROVER_assigns(channelTable[ghost_h] != chptr && ghost_pch: ghost_pch->hnext);
void verif_inv_hRemChannel(struct Channel *chptr, struct Channel *tmp, unsigned hashv)
  __CPROVER_ensures(rec_predch(tmp, chptr) == ghost_pch && hashv == ghost_h && channelTable[ghost_h] != chptr);

/* renaming: out of the bucket of the old name, to the head of the bucket of the new one */
int hChangeClient(struct Client *cptr, const char *newname)
  __CPROVER_requires(cptr->cli_name[0] != 0 && *newname != 0 && cptr->cli_hnext != cptr)
  __CPROVER_requires(ghost_h2 == spec_bucket(newname))
  PIN(cptr->cli_name) PINX(cptr)
  __CPROVER_requires(clientTable[ghost_h] == cptr || ghost_p)
  __CPROVER_ensures(clientTable[ghost_h2] == cptr)
  __CPROVER_ensures(cptr->cli_hnext == (WAS_HEAD && ghost_h == ghost_h2 ? __CPROVER_old(cptr->cli_hnext) : __CPROVER_old(clientTable[ghost_h2])))
  __CPROVER_ensures(ghost_h == ghost_h2 || clientTable[ghost_h] == (WAS_HEAD ? __CPROVER_old(cptr->cli_hnext) : __CPROVER_old(clientTable[ghost_h])))
  __CPROVER_ensures(WAS_HEAD || ghost_p->cli_hnext == __CPROVER_old(cptr->cli_hnext))
  __CPROVER_assigns(cptr->cli_hnext, clientTable[ghost_h2])
  __CPROVER_assigns(clientTable[ghost_h] == cptr: clientTable[ghost_h])
  __CPROVER_assigns(clientTable[ghost_h] != cptr: ghost_p->cli_hnext);

/* looking up: the first that has the name; it moves to the head of its bucket */
#define MOVED (ghost_x && ghost_x != clientTable[ghost_h])
#define MOVEDCH (ghost_xch && ghost_xch != channelTable[ghost_h])
struct Client *hSeekClient(const char *name, int TMask)
  __CPROVER_requires(*name != 0)
  PIN(name) PINX(rec_first(clientTable[ghost_h], name, TMask))
  __CPROVER_requires(!ghost_x || spec_hit(ghost_x, name, TMask))        /* lemma_first */
  __CPROVER_ensures(__CPROVER_return_value == ghost_x)
  __CPROVER_ensures(!ghost_x || clientTable[ghost_h] == ghost_x)
  __CPROVER_ensures(!ghost_x || WAS_HEAD || (ghost_x->cli_hnext == __CPROVER_old(clientTable[ghost_h]) && ghost_p->cli_hnext == verif_old_ptr(ghost_x->cli_hnext)))
  __CPROVER_assigns(MOVED: clientTable[ghost_h])
  __CPROVER_assigns(MOVED: ghost_x->cli_hnext)
  __CPROVER_assigns(MOVED: ghost_p->cli_hnext);
void verif_inv_hSeekClient(const char *name, int TMask, struct Client *prev, struct Client *cptr, unsigned hashv)
  __CPROVER_ensures(cptr != 0 && hashv == ghost_h && !spec_hit(cptr, name, TMask) && rec_first(cptr, name, TMask) == ghost_x && rec_pred(cptr, ghost_x) == ghost_p && !spec_hit(clientTable[ghost_h], name, TMask));
struct Channel *hSeekChannel(const char *name)
  __CPROVER_requires(*name != 0)
  PIN(name) PINXCH(rec_firstch(channelTable[ghost_h], name))
  __CPROVER_requires(!ghost_xch || rec_same(name, ghost_xch->chname))   /* lemma_firstch */
  __CPROVER_ensures(__CPROVER_return_value == ghost_xch)
  __CPROVER_ensures(!ghost_xch || channelTable[ghost_h] == ghost_xch)
  __CPROVER_ensures(!ghost_xch || WAS_HEADCH || (ghost_xch->hnext == __CPROVER_old(channelTable[ghost_h]) && ghost_pch->hnext == verif_old_ptr(ghost_xch->hnext)))
  __CPROVER_assigns(MOVEDCH: channelTable[ghost_h])
  __CPROVER_assigns(MOVEDCH: ghost_xch->hnext)
  __CPROVER_assigns(MOVEDCH: ghost_pch->hnext);
void verif_inv_hSeekChannel(const char *name, struct Channel *prev, struct Channel *chptr, unsigned hashv)
  __CPROVER_ensures(chptr != 0 && hashv == ghost_h && !rec_same(name, chptr->chname) && rec_firstch(chptr, name) == ghost_xch && rec_predch(chptr, ghost_xch) == ghost_pch && !rec_same(name, channelTable[ghost_h]->chname));

void lemma_first(struct Client *c, const char *name, int mask)
  __CPROVER_ensures(!rec_first(c, name, mask) || (spec_hit(rec_first(c, name, mask), name, mask) && rec_on(c, rec_first(c, name, mask))))
  __CPROVER_assigns();
void lemma_first(struct Client *c, const char *name, int mask) { if (c) lemma_first(c->cli_hnext, name, mask); }
void lemma_firstch(struct Channel *c, const char *name)
  __CPROVER_ensures(!rec_firstch(c, name) || (rec_same(name, rec_firstch(c, name)->chname) && rec_onch(c, rec_firstch(c, name))))
  __CPROVER_assigns();
void lemma_firstch(struct Channel *c, const char *name) { if (c) lemma_firstch(c->hnext, name); }
/* whoever is on the chain with that name and state is found, or another with the same name and state */
void lemma_found(struct Client *c, const char *name, int mask, struct Client *g)
  __CPROVER_requires(rec_on(c, g) && spec_hit(g, name, mask))
  __CPROVER_ensures(rec_first(c, name, mask) != 0)
  __CPROVER_assigns();
void lemma_found(struct Client *c, const char *name, int mask, struct Client *g) { if (c && c != g) lemma_found(c->cli_hnext, name, mask, g); }
void lemma_foundch(struct Channel *c, const char *name, struct Channel *g)
  __CPROVER_requires(rec_onch(c, g) && rec_same(name, g->chname))
  __CPROVER_ensures(rec_firstch(c, name) != 0)
  __CPROVER_assigns();
void lemma_foundch(struct Channel *c, const char *name, struct Channel *g) { if (c && c != g) lemma_foundch(c->hnext, name, g); }

/* What these links mean for the chains.  The lemmas perform the same writes themselves, step by step. */
/* a link outside a chain does not matter to it */
void lemma_skip(struct Client *c, struct Client *p, struct Client *v, struct Client *g, struct Client *x)
  __CPROVER_requires(!rec_on(c, p))
  __CPROVER_ensures(rec_on(c, g) == verif_old_int(rec_on(c, g)) && rec_on(c, x) == verif_old_int(rec_on(c, x)) && p->cli_hnext == v)
  __CPROVER_assigns(p->cli_hnext);
void lemma_skip(struct Client *c, struct Client *p, struct Client *v, struct Client *g, struct Client *x)
{
  if (c) lemma_skip(c->cli_hnext, p, v, g, x);
  else p->cli_hnext = v;
}
/* taking x, which is on the chain once, out behind its predecessor: x is gone, every other entry stays */
void lemma_unlink(struct Client *c, struct Client *x, struct Client *g)
  __CPROVER_requires(c && x && c != x && !rec_on(x->cli_hnext, x) && g != x)
  __CPROVER_requires(ghost_p && ghost_p == rec_pred(c, x) && ghost_p->cli_hnext == x && !rec_on(ghost_p->cli_hnext, ghost_p))
  __CPROVER_ensures(!rec_on(c, x) && rec_on(c, g) == verif_old_int(rec_on(c, g)))
  __CPROVER_ensures(ghost_p->cli_hnext == __CPROVER_old(x->cli_hnext))
  __CPROVER_assigns(ghost_p->cli_hnext);
void lemma_unlink(struct Client *c, struct Client *x, struct Client *g)
{
  if (c->cli_hnext == x) lemma_skip(x->cli_hnext, c, x->cli_hnext, g, x);
  else lemma_unlink(c->cli_hnext, x, g);
}

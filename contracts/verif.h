/* Vocabulary of the contract units. */
#ifndef VERIF_H
#define VERIF_H
void verif_everything(void);      /* assigns target: any memory */
void verif_any_field();           /* assigns target: this field, of every object */
void verif_any_bits();            /* assigns target: these bits of this field, of every object */
void verif_text_upto(const char *p, unsigned long n);   /* assigns target: n characters from p on */
void verif_assert(int);           /* lemma step: proved, then known */
void verif_assume(int);
int verif_nondet_int(void);
void *verif_nondet_ptr(void);
/* value of an expression in the pre-state (postconditions only) */
int verif_old_int(int);
unsigned long verif_old_ulong(unsigned long);
void *verif_old_ptr(const void *);
/* variable argument number i of the call (contracts of variadic functions only) */
void *verif_va_ptr(int i);
int verif_va_int(int i);
int verif_va_count(void);
#define ENSURES(...) __CPROVER_ensures(__VA_ARGS__)
#define REQUIRES(...) __CPROVER_requires(__VA_ARGS__)
#define ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define RETVAL __CPROVER_return_value
#define OLD(x) __CPROVER_old(x)
#define IMPLIES(a, b) (!(a) || (b))
#define IFF(a, b) (!(a) == !(b))
#endif

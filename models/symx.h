#ifndef SYMX_H
#define SYMX_H
#include <stdint.h>
/* harness API: implemented by the symbolic executor and by native_rt.c (replay) */
int64_t sym_int(const char *name, int64_t lo, int64_t hi);
int64_t sym_param(const char *name, int64_t dflt); /* concrete job parameter */
void sym_assume(int c);
void sym_assert(int c, const char *msg);
int64_t sym_conc(int64_t v);
int sym_branch(int c);
void sym_cover(const char *label);
int sym_is_symbolic_run(void);
void sym_dbg(const char *name, int64_t v);
int64_t sym_ite(int c, int64_t a, int64_t b);
#ifdef __GMP_H__
void sym_mpz(mpz_t z, const char *name, const char *lo, const char *hi);
#endif
/* in-memory files: contents may be symbolic; natively written below $SYMX_TMP */
void sym_file(const char *name, const char *buf, uint64_t len);
const char *sym_path(const char *name);
/* output capture of a named file after the code under test closed it */
uint64_t sym_outfile(const char *name, char *buf, uint64_t cap);
#endif

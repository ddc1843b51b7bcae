/* forced include for symbolic compilation: route GMP macros and inlines to modelled functions */
#include <stdio.h>
#include <stdlib.h>
#include <gmp.h>
#undef mpz_sgn
#undef mpz_cmp_ui
#undef mpz_cmp_si
#undef mpz_odd_p
#undef mpz_even_p
int symx_mpz_sgn(mpz_srcptr); int symx_mpz_cmp_ui(mpz_srcptr, unsigned long); int symx_mpz_cmp_si(mpz_srcptr, long);
int symx_mpz_odd_p(mpz_srcptr); int symx_mpz_even_p(mpz_srcptr); void symx_mpz_abs(mpz_ptr, mpz_srcptr); void symx_mpz_neg(mpz_ptr, mpz_srcptr);
unsigned long symx_mpz_get_ui(mpz_srcptr); int symx_mpz_fits_ulong_p(mpz_srcptr); size_t symx_mpz_size(mpz_srcptr);
#define mpz_sgn symx_mpz_sgn
#define mpz_cmp_ui symx_mpz_cmp_ui
#define mpz_cmp_si symx_mpz_cmp_si
#define mpz_odd_p symx_mpz_odd_p
#define mpz_even_p symx_mpz_even_p
#undef mpz_abs
#undef mpz_neg
#undef mpz_get_ui
#undef mpz_fits_ulong_p
#undef mpz_size
#define mpz_abs symx_mpz_abs
#define mpz_neg symx_mpz_neg
#define mpz_get_ui symx_mpz_get_ui
#define mpz_fits_ulong_p symx_mpz_fits_ulong_p
#define mpz_size symx_mpz_size

/* portable forms of the double-word helpers FLINT's headers implement in assembly */
#include <flint/flint.h>
#include <flint/longlong.h>
#undef umul_ppmm
#undef smul_ppmm
#undef add_ssaaaa
#undef sub_ddmmss
#undef add_sssaaaaaa
#undef udiv_qrnnd
#define umul_ppmm(h, l, a, b) do { unsigned __int128 _w = (unsigned __int128)(unsigned long)(a) * (unsigned long)(b); (h) = (unsigned long)(_w >> 64); (l) = (unsigned long)_w; } while (0)
#define smul_ppmm(h, l, a, b) do { __int128 _w = (__int128)(long)(a) * (long)(b); (h) = (unsigned long)(_w >> 64); (l) = (unsigned long)_w; } while (0)
#define add_ssaaaa(h, l, ah, al, bh, bl) do { unsigned __int128 _w = (((unsigned __int128)(unsigned long)(ah) << 64) | (unsigned long)(al)) + (((unsigned __int128)(unsigned long)(bh) << 64) | (unsigned long)(bl)); (h) = (unsigned long)(_w >> 64); (l) = (unsigned long)_w; } while (0)
#define sub_ddmmss(h, l, ah, al, bh, bl) do { unsigned __int128 _w = (((unsigned __int128)(unsigned long)(ah) << 64) | (unsigned long)(al)) - (((unsigned __int128)(unsigned long)(bh) << 64) | (unsigned long)(bl)); (h) = (unsigned long)(_w >> 64); (l) = (unsigned long)_w; } while (0)
#define udiv_qrnnd(q, r, h, l, d) do { unsigned __int128 _w = ((unsigned __int128)(unsigned long)(h) << 64) | (unsigned long)(l); (q) = (unsigned long)(_w / (d)); (r) = (unsigned long)(_w % (d)); } while (0)

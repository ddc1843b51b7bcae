/* tiny system strings: variables x y z w t (in this order), digits, '*', '^', '+', '-'; capital letters A..H are
   symbolic coefficients: any unit of Z/p, given by its representative in 1..p-1 (or, for a leading '-', its negative) */
#ifndef SYSPOLY_H
#define SYSPOLY_H
static int64_t SYMC[26]; static char SYMD[26];
static int64_t symcoef(char c) { int k = c - 'A'; if (!SYMD[k]) { char nm[2] = {c, 0}; SYMC[k] = sym_int(nm, 1, R_p - 1); SYMD[k] = 1; } return SYMC[k]; }
static const char *VARS = "xyzwt";
/* gsys: raw coefficients; a symbolic coefficient may only be multiplied by +-1 */
static void parse_sys(gsys *s, const char *q) {
  memset(s, 0, sizeof *s);
  while (*q) {
    while (*q && *q != ',') {
      while (*q == ' ') q++;
      int neg = 0; if (*q == '+') q++; else if (*q == '-') { neg = 1; q++; }
      int64_t c = 1; int e[RMAXV] = {0};
      for (;;) {
        if (*q >= '0' && *q <= '9') { int64_t v = 0; while (*q >= '0' && *q <= '9') v = 10 * v + (*q++ - '0'); c = c * v; }
        else if (*q >= 'A' && *q <= 'Z') c = symcoef(*q++);
        else if (*q >= 'a' && *q <= 'z') { int v = (int)(strchr(VARS, *q++) - VARS); int k = 1; if (*q == '^') { q++; k = 0; while (*q >= '0' && *q <= '9') k = 10 * k + (*q++ - '0'); } e[v] += k; }
        if (*q == '*') { q++; continue; } break;
      }
      g_term(s, neg ? -c : c, e); while (*q == ' ') q++;
    }
    s->ng++; if (*q == ',') q++;
  }
}
static const struct { int nv; const char *s; } SYSTEMS[] = {
/* 0*/ {3, "x+A*y+z+B, x^2+5*y*z+3*z^2, x*y+2*z"},
/* 1*/ {2, "x^2+A*y, x*y+B"},
/* 2*/ {3, "x*y+A*z^2, y^2+z^2, x^2+B*y*z"},
/* 3*/ {3, "x^2*y+A*z+1, x*y^2+B*z, z^2+x"},
/* 4*/ {2, "A*x^3+y, x^2*y+B*x, y^3+1"},
/* 5*/ {4, "x+y+z+A*w, x*y+y*z+z*w+w*x, x*y*z+y*z*w+z*w*x+w*x*y, x*y*z*w-B"},
/* 6*/ {3, "A*x^2+y+z-1, x+y^2+B*z-1, x+y+z^2-1"},
/* 7*/ {3, "x^2+y^2+z^2-A, x*y+B, y*z-3"},
/* 8*/ {2, "x^2-A, x^2-B, x*y+y^2"},
/* 9*/ {3, "x*y-A*y, y*z+z, x*z-B*x"},
/*10*/ {1, "x^3+A*x+1, x^2+B"},
/*11*/ {3, "x+A*y, x+B*y, z^2+x*z"},
/*12*/ {2, "A*x+1, B*x*y+y^2-2"},
/*13*/ {5, "x+A*y+z, w*t+x, t^2+B*y*w, z*t"},
/*14*/ {3, "x^4+A*y^3*z, y^4+z^3*x, B*z^4-x^2*y^2"},
/*15*/ {2, "x^5+A, x^4*y+B*y^3, y^6"},
/*16*/ {3, "-A*x^2+y*z, -B*y^2-x*z, z^2*x-y"},
/*17*/ {2, "A*x^2+B*x^2*y+y, x*y^2+x"},
/*18*/ {4, "x*w-A*y*z, x*z-y^2, y*w-B*z^2"},
/*19*/ {3, "x^2+x*y+A, y^2+y*z+B, z^2+z*x+1, x*y*z"},
/*20*/ {2, "x^2+A*x*y+y^2"},
/*21*/ {2, "A*x^200+y^3, x^3*y+B*y^200"},
/*22*/ {3, "x^2+A*x*y+y^2, x^2+y*z, z^3+B*y^3"},
/*23*/ {4, "A*x*y-z*w, x^2*z-B*y*w^2, x*z^2-y^2*w"},
/* scaled generators: leading-term cancellations do not depend on the unknowns */
/*24*/ {3, "A*x^2+A*y*z, B*x*y+B*z^2, y^2+x*z-z"},
/* rows much longer than the small hash tables */
/*25*/ {2, "x^18+A*x^17+2*x^16+3*x^15+4*x^14+5*x^13+6*x^12+7*x^11+8*x^10+9*x^9+10*x^8+11*x^7+12*x^6+13*x^5+14*x^4+15*x^3+16*x^2+17*x^1+5, x^19+A*x^18+2*x^17+3*x^16+4*x^15+5*x^14+6*x^13+7*x^12+8*x^11+9*x^10+10*x^9+11*x^8+12*x^7+13*x^6+14*x^5+15*x^4+16*x^3+17*x^2+5*x+B*y"},
/*26*/ {3, "z*y+A*x^2*y+x*y*z, 1*x^0*y^1+1*x^0*y^2+1*x^0*y^3+1*x^1*y^0+2*x^1*y^1+3*x^1*y^2+4*x^1*y^3+1*x^2*y^0+3*x^2*y^1+5*x^2*y^2+1*x^3*y^0+4*x^3*y^1+z, B*z^2+y"},
};
#endif

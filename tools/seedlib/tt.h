/* small helpers of the demonstrations: functions of up to 6 variables as 64-bit truth tables */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "cal.h"
typedef unsigned long long tt;
static Cal_BddManager M;
static Cal_Bdd V[64];
static int N;
static void start(int n) { int i; N = n; M = Cal_BddManagerInit(); for (i = 0; i < n; i++) V[i] = Cal_BddManagerCreateNewVarLast(M); }
/* bit of assignment a in t; variable i is bit i of a */
static Cal_Bdd build_(tt t, int i, unsigned a) {
  if (i == N) return (t >> a) & 1 ? Cal_BddOne(M) : Cal_BddZero(M);
  Cal_Bdd e = build_(t, i + 1, a), h = build_(t, i + 1, a | 1u << i), r = Cal_BddITE(M, V[i], h, e);
  Cal_BddFree(M, e); Cal_BddFree(M, h); return r;
}
static Cal_Bdd build(tt t) { return build_(t, 0, 0); }
static int eval(Cal_Bdd f, unsigned a) {
  int i, r; Cal_Bdd c = Cal_BddIdentity(M, f), n, l;
  for (i = 0; i < N; i++) { l = (a >> i) & 1 ? Cal_BddIdentity(M, V[i]) : Cal_BddNot(M, V[i]); n = Cal_BddCofactor(M, c, l); Cal_BddFree(M, l); Cal_BddFree(M, c); c = n; }
  r = Cal_BddIsBddOne(M, c); Cal_BddFree(M, c); return r;
}
static tt table(Cal_Bdd f) { tt t = 0; unsigned a; for (a = 0; a < 1u << N; a++) if (eval(f, a)) t |= 1ull << a; return t; }
static tt full(void) { return N == 6 ? ~0ull : (1ull << (1 << N)) - 1; }
static tt var(int i) { tt t = 0; unsigned a; for (a = 0; a < 1u << N; a++) if ((a >> i) & 1) t |= 1ull << a; return t; }
static tt cof(tt t, int i, int v) { tt r = 0; unsigned a; for (a = 0; a < 1u << N; a++) { unsigned b = v ? a | 1u << i : a & ~(1u << i); if ((t >> b) & 1) r |= 1ull << a; } return r; }
static tt ex(tt t, int i) { return cof(t, i, 0) | cof(t, i, 1); }
static tt fa(tt t, int i) { return cof(t, i, 0) & cof(t, i, 1); }
static unsigned long long S = 88172645463325252ull;
static unsigned long long rnd(void) { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return S * 2685821657736338717ull; }
static void die(const char *s) { printf("WRONG: %s\n", s); fflush(stdout); _exit(1); }
#define CHECK(c, s) do { if (!(c)) die(s); } while (0)

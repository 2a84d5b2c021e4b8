#pragma once
struct vreq { long n, m, p, l, nex, ncones, nb, ni, mip, life, verbose, maxit, strategy; const long *q, *bi, *ii; const double *G, *A, *c, *h, *b; double *out; long cap; };

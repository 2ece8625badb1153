/* Least squares, pseudo-inverse, QR and UDU over exact reals. Outputs lie between guard cells. */
#include <math.h>
#include <swiftnav/linear_algebra.h>
#include "vpmat.h"
#include "vptime.h"
#define MX 36
#define G 2
typedef struct {
  double g0[G], v[MX], g1[G];
} out_t;
static void fill(double *x, int n) {
  for (int i = 0; i < n; i++) {
    x[i] = vp_dbl(-100, 100);
  }
}
static void out_start(out_t *o, out_t *copy) {
  fill(o->g0, G), fill(o->v, MX), fill(o->g1, G);
  *copy = *o;
}
static void out_kept(const out_t *o, const out_t *copy, int n) { /* all but the first n values */
  for (int i = 0; i < G; i++) {
    CHECK_EQ(o->g0[i], copy->g0[i], 0, "nothing before the output is written");
    CHECK_EQ(o->g1[i], copy->g1[i], 0, "nothing far behind the output is written");
  }
  for (int i = n; i < MX; i++) {
    CHECK_EQ(o->v[i], copy->v[i], 0, "nothing behind the output is written");
  }
}
static void in_kept(const double *x, const double *y, int n) {
  for (int i = 0; i < n; i++) {
    CHECK_EQ(x[i], y[i], 0, "operands are not modified");
  }
}
#ifdef N_
#define NA (N_ * M_)
static double A[NA], A0[NA], Wt[N_ + M_], Wt0[N_ + M_];
static void operand(void) {
  fill(A, NA);
#ifdef FREE /* only column FREE is symbolic, the rest are small numbers */
  static const double base[] = {1, 2, -1, 3, 2, -1, 3, 1, -2, 3, 1, 1, 3, 1, 2, -2, 1, -3, 2, 4, 2, 1, -1, 2};
  for (int i = 0; i < NA; i++) {
    if (i % M_ != FREE) {
      A[i] = base[i];
    }
  }
#endif
  fill(Wt, N_ + M_);
  memcpy(A0, A, sizeof A), memcpy(Wt0, Wt, sizeof Wt);
}
/* c := X W X' where X is r x k with strides */
static void gram(int r, int k, int si, int sk, const double *w, double *c) {
  for (int i = 0; i < r; i++) {
    for (int j = 0; j < r; j++) {
      c[r * i + j] = 0;
      for (int l = 0; l < k; l++) {
        c[r * i + j] += A[si * i + sk * l] * (w ? w[l] : 1) * A[si * j + sk * l];
      }
    }
  }
}
static void identity(int n, int k, const double *x, const double *y, const char *what) {
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++) {
      double s = 0;
      for (int l = 0; l < k; l++) {
        s += x[k * i + l] * y[n * l + j];
      }
      CHECK_EQ(s, i == j ? 1.0 : 0.0, 1e-3, what);
    }
  }
}
static void regular(const double *c, int n) { /* called after a reported failure */
  const double d = det(c, n);
  CHECK(d < 1e-50 && d > -1e-50, "a regular problem is solved");
}
#endif

#if SLICE == 0 /* weighted least squares */
static double b[N_], b0[N_], N[M_ * M_];
static out_t x, x0, V, V0;
void harness(void) {
  const int n = N_, m = M_;
  operand();
  fill(b, n);
  memcpy(b0, b, sizeof b);
  out_start(&x, &x0), out_start(&V, &V0);
  const double *w = OPT & 1 ? Wt : NULL;
  const int res = matrix_wlsq_solve(n, m, A, b, w, OPT & 2 ? NULL : x.v, OPT & 4 ? NULL : V.v);
  in_kept(A, A0, NA), in_kept(Wt, Wt0, n), in_kept(b, b0, n);
  if (n < m) {
    CHECK(res < 0, "an underdetermined system is refused");
    out_kept(&x, &x0, 0), out_kept(&V, &V0, 0);
    return;
  }
  out_kept(&x, &x0, OPT & 2 ? 0 : m), out_kept(&V, &V0, OPT & 4 ? 0 : m * m);
  gram(m, n, 1, m, w, N);
  if (res != 0) {
    CHECK(res < 0, "failure is a negative code");
    if (m < 3) {
      regular(N, m);
    }
    return;
  }
  if (m < 5) {
    WELL_CONDITIONED(N, m);
  }
  if (!(OPT & 4)) {
    identity(m, m, V.v, N, "the covariance is the inverse of the normal matrix");
  }
  if (!(OPT & 2)) {
    for (int i = 0; i < m; i++) {
      double l = 0, r = 0;
      for (int j = 0; j < m; j++) {
        l += N[m * i + j] * x.v[j];
      }
      for (int k = 0; k < n; k++) {
        r += A[m * k + i] * (w ? w[k] : 1) * b[k];
      }
      CHECK_EQ(l, r, 1e-3, "the solution satisfies the normal equations");
    }
  }
}
#elif SLICE == 1 /* inverse of a rectangular matrix; FN selects the entry point */
static out_t B, B0;
static double C[MX];
void harness(void) {
  const int n = N_, m = M_;
  operand();
  out_start(&B, &B0);
  const double *w = NULL;
  int res;
#if FN == 0
  res = matrix_pseudoinverse(n, m, A, B.v);
#elif FN == 1
  res = matrix_atwaiat(n, m, A, w = Wt, B.v);
#elif FN == 2
  res = matrix_atawati(n, m, A, w = Wt, B.v);
#elif FN == 3
  res = matrix_ataiat(n, m, A, B.v);
#else
  res = matrix_ataati(n, m, A, B.v);
#endif
  in_kept(A, A0, NA), in_kept(Wt, Wt0, n > m ? n : m);
  if (((FN == 1 || FN == 3) && n <= m) || ((FN == 2 || FN == 4) && n >= m)) {
    CHECK(res < 0, "an operand of the wrong shape is refused");
    out_kept(&B, &B0, 0);
    return;
  }
  out_kept(&B, &B0, NA);
  const int tall = n > m, k = n > m ? m : n; /* k: size of the normal matrix */
  if (n == m) {
    if (res == 0) {
      WELL_CONDITIONED(A, n);
      identity(n, n, B.v, A, "the inverse of a square matrix");
    } else {
      regular(A, n);
    }
    return;
  }
  if (tall) {
    gram(m, n, 1, m, w, C);
  } else {
    gram(n, m, m, 1, w, C);
  }
  if (res != 0) {
    CHECK(res < 0, "failure is a negative code");
    if (k < 3) {
      regular(C, k);
    }
    return;
  }
  WELL_CONDITIONED(C, k);
  /* tall: C B = A';  wide: B C = A' */
  for (int i = 0; i < m; i++) {
    for (int j = 0; j < n; j++) {
      double s = 0;
      for (int l = 0; l < k; l++) {
        s += tall ? C[m * i + l] * B.v[n * l + j] : B.v[n * i + l] * C[n * l + j];
      }
      CHECK_EQ(s, A[m * j + i], 1e-3, "the normal equations of the inverse");
    }
  }
  if (w == NULL) { /* a consequence, stated on its own */
    if (tall) {
      identity(m, n, B.v, A, "left inverse");
    } else {
      identity(n, m, A, B.v, "right inverse");
    }
  }
}
#elif SLICE == 2 /* QR */
static out_t qt, qt0, r, r0;
static double a[Q_ * Q_], a0[Q_ * Q_];
void harness(void) {
  const int n = Q_;
  fill(a, n * n);
#if Q_ == 3
  static const double col[6][3] = {{1, 2, 2}, {-2, 1, 2}, {0, 3, -4}, {0, 0, -5}, {-3, 0, 0}, {-6, -2, 3}};
  static const double rest[3][2] = {{2, -1}, {1, 4}, {-3, 2}};
  for (int i = 0; i < 3; i++) {
    a[3 * i] = col[COL][i];
#if FREECOL == 2
    a[3 * i + 1] = rest[i][0];
#else /* one entry of the second column */
    a[3 * i + 2] = rest[i][1];
    if (i != ROW) {
      a[3 * i + 1] = rest[i][0];
    }
#endif
  }
#endif
  memcpy(a0, a, sizeof a);
  out_start(&qt, &qt0), out_start(&r, &r0);
  const s32 res = qrdecomp_square(a, n, qt.v, r.v);
  in_kept(a, a0, n * n);
  out_kept(&qt, &qt0, n * n), out_kept(&r, &r0, n * n);
  CHECK(res <= 0, "failure is a negative code");
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < i; j++) {
      CHECK_EQ(r.v[n * i + j], 0.0, 0, "R is upper triangular");
    }
  }
#if Q_ == 2
  const double dt = a[0] * a[3] - a[1] * a[2];
  if (dt > 0.01 || dt < -0.01) {
    CHECK(res == 0, "a regular matrix is decomposed");
  }
#endif
  if (res != 0) {
    return;
  }
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++) {
      double s = 0, t = 0;
      for (int k = 0; k < n; k++) {
        s += qt.v[n * i + k] * qt.v[n * j + k];
        t += qt.v[n * i + k] * a[n * k + j];
      }
      CHECK_EQ(s, i == j ? 1.0 : 0.0, 1e-6, "Q is orthogonal");
      CHECK_EQ(t, r.v[n * i + j], 1e-6, "Q' A = R");
    }
  }
}
#elif SLICE == 3 /* triangular and orthogonal solves */
static double a[Q_ * Q_], b[Q_], b0[Q_];
static out_t x, x0;
void harness(void) {
  const int n = Q_;
  fill(a, n * n), fill(b, n);
  memcpy(b0, b, sizeof b);
  out_start(&x, &x0);
  qtmult(a, n, b, x.v);
  for (int i = 0; i < n; i++) {
    double s = 0;
    for (int k = 0; k < n; k++) {
      s += a[n * i + k] * b[k];
    }
    CHECK_EQ(x.v[i], s, 1e-6, "product with Q'");
  }
  out_kept(&x, &x0, n);
  for (int i = 0; i < n; i++) {
    ASSUME(a[n * i + i] > 0.1 || a[n * i + i] < -0.1);
  }
  for (int alias = 0; alias < 2; alias++) {
    if (alias) {
      memcpy(x.v, b, sizeof b);
    }
    rsolve(a, n, n, alias ? x.v : b, x.v);
    for (int i = 0; i < n; i++) {
      double s = 0;
      for (int k = i; k < n; k++) {
        s += a[n * i + k] * x.v[k];
      }
      CHECK_EQ(s, b0[i], 1e-3, "R x = b");
    }
    out_kept(&x, &x0, n);
    in_kept(b, b0, n);
  }
}
#elif SLICE == 4 /* solution of a square system */
static double a[Q_ * Q_], a0[Q_ * Q_], b[Q_], b0[Q_], t[Q_], x2[Q_];
static out_t x, x0, qt, r;
void harness(void) {
  const int n = Q_;
  fill(a, n * n), fill(b, n);
#if Q_ == 3
  static const double col[6][3] = {{1, 2, 2}, {-2, 1, 2}, {0, 3, -4}, {0, 0, -5}, {-3, 0, 0}, {-6, -2, 3}};
  static const double rest[3][2] = {{2, -1}, {1, 4}, {-3, 2}};
  for (int i = 0; i < 3; i++) {
    a[3 * i] = col[COL][i];
    a[3 * i + (FREECOL == 1 ? 2 : 1)] = rest[i][FREECOL == 1];
  }
#endif
  memcpy(a0, a, sizeof a), memcpy(b0, b, sizeof b);
  out_start(&x, &x0);
  const s32 res = qrsolve(a, n, n, b, x.v);
  in_kept(a, a0, n * n), in_kept(b, b0, n);
  out_kept(&x, &x0, n);
  CHECK(res == qrdecomp_square(a, n, qt.v, r.v), "the result of the decomposition is passed on");
  if (res != 0) {
    CHECK(res < 0, "failure is a negative code");
    return;
  }
  WELL_CONDITIONED(a, n);
#if Q_ == 2
  for (int i = 0; i < n; i++) {
    double s = 0;
    for (int k = 0; k < n; k++) {
      s += a[n * i + k] * x.v[k];
    }
    CHECK_EQ(s, b[i], 1e-5, "the solution satisfies the system");
  }
#else /* composition of the parts, which are checked on their own */
  qtmult(qt.v, n, b, t);
  rsolve(r.v, n, n, t, x2);
  for (int i = 0; i < n; i++) {
    CHECK_EQ(x.v[i], x2[i], 1e-5, "back substitution of Q' b");
  }
#endif
}
#elif SLICE == 7 /* dependent columns */
static double a[4];
static out_t qt, r;
void harness(void) {
  const double f = vp_dbl(-4, 4);
  const int z = PICK(vp_srange(0, 2));
  a[0] = z == 1 ? 0 : vp_dbl(-100, 100), a[2] = z == 1 ? 0 : vp_dbl(-100, 100);
  a[1] = z == 1 ? vp_dbl(-100, 100) : z == 2 ? 0 : a[0] * f, a[3] = z == 1 ? vp_dbl(-100, 100) : z == 2 ? 0 : a[2] * f;
  CHECK(qrdecomp_square(a, 2, qt.v, r.v) < 0, "a singular matrix is reported");
}
#elif SLICE == 5 /* UDU of a positive (semi)definite matrix returns its factors */
static double u[Q_ * Q_], d[Q_], M[Q_ * Q_];
static out_t U, U0, D, D0, R, R0;
void harness(void) {
  const int n = Q_;
  for (int i = 0; i < n; i++) {
    d[i] = (ZERO >> i) & 1 ? 0.0 : vp_dbl(0.5, 100);
  }
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++) {
      u[n * i + j] = i == j ? 1 : i > j || d[j] == 0 ? 0 : vp_dbl(-10, 10);
    }
  }
  for (int i = 0; i < n; i++) {
    for (int k = 0; k < n; k++) {
      M[n * i + k] = 0;
      for (int j = i > k ? i : k; j < n; j++) {
        M[n * i + k] += u[n * i + j] * d[j] * u[n * k + j];
      }
    }
  }
  out_start(&U, &U0), out_start(&D, &D0), out_start(&R, &R0);
  matrix_reconstruct_udu(n, u, d, R.v);
  for (int i = 0; i < n * n; i++) {
    CHECK_EQ(R.v[i], M[i], 1e-6, "reconstruction");
  }
  out_kept(&R, &R0, n * n);
  matrix_udu(n, M, U.v, D.v);
  for (int i = 0; i < n; i++) {
    CHECK_EQ(D.v[i], d[i], 1e-6, "diagonal factor");
    for (int j = 0; j < n; j++) {
      CHECK_EQ(U.v[n * i + j], u[n * i + j], 1e-6, "unit triangular factor");
    }
  }
  out_kept(&U, &U0, n * n), out_kept(&D, &D0, n);
}
#elif SLICE == 6 /* UDU of anything: U unit upper triangular, D not negative; reconstruction of any factors */
static double u[Q_ * Q_], d[Q_], M[Q_ * Q_];
static out_t U, U0, D, D0, R, R0;
void harness(void) {
  const int n = Q_;
  fill(u, n * n), fill(d, n), fill(M, n * n);
  out_start(&U, &U0), out_start(&D, &D0), out_start(&R, &R0);
  matrix_udu(n, M, U.v, D.v);
  for (int i = 0; i < n; i++) {
    CHECK(D.v[i] >= 0, "the diagonal factor is not negative");
    for (int j = 0; j <= i; j++) {
      CHECK_EQ(U.v[n * i + j], i == j ? 1.0 : 0.0, 0, "U is unit upper triangular");
    }
  }
  out_kept(&U, &U0, n * n), out_kept(&D, &D0, n);
  matrix_reconstruct_udu(n, u, d, R.v);
  for (int i = 0; i < n; i++) {
    for (int k = 0; k < n; k++) {
      double s = 0;
      for (int j = i > k ? i : k; j < n; j++) {
        s += u[n * i + j] * d[j] * u[n * k + j];
      }
      CHECK_EQ(R.v[n * i + k], s, 1e-3, "reconstruction");
    }
  }
  out_kept(&R, &R0, n * n);
}
#endif

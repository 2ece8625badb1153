/* Dense kernels over exact reals. Outputs lie between guard cells and start with arbitrary content. */
#include <math.h>
#include <swiftnav/linear_algebra.h>
#include "vpmat.h"
#include "vptime.h"
#define MX 64
#define G 3
static double a[MX], b[MX], c0[MX + 2 * G], cg[MX + 2 * G], *const c = c0 + G, a0[MX], b0[MX];
static void fill(double *x, int n) {
  for (int i = 0; i < n; i++) {
    x[i] = vp_dbl(-100, 100);
  }
}
static void start(int na, int nb, int nc) {
  fill(a, na), fill(b, nb);
  memcpy(a0, a, sizeof a), memcpy(b0, b, sizeof b);
  for (int i = 0; i < nc + 2 * G; i++) {
    cg[i] = c0[i] = vp_dbl(-100, 100);
  }
}
/* guards and operands are as before */
static void kept(int na, int nb, int nc) {
  for (int i = 0; i < na; i++) {
    CHECK_EQ(a[i], a0[i], 0, "the first operand is not modified");
  }
  for (int i = 0; i < nb; i++) {
    CHECK_EQ(b[i], b0[i], 0, "the second operand is not modified");
  }
  for (int i = 0; i < G; i++) {
    CHECK_EQ(c0[i], cg[i], 0, "nothing before the output is written");
    CHECK_EQ(c0[G + nc + i], cg[G + nc + i], 0, "nothing behind the output is written");
  }
}
#if SLICE == 0 /* products and elementwise operations, any shape up to 3 */
void harness(void) {
  const int n = PICK(vp_srange(1, 3)), m = PICK(vp_srange(1, 3)), p = PICK(vp_srange(1, 3));
  start(n * m, m * p, n * p);
  matrix_multiply(n, m, p, a, b, c);
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < p; j++) {
      double s = 0;
      for (int k = 0; k < m; k++) {
        s += a[m * i + k] * b[p * k + j];
      }
      CHECK_EQ(c[p * i + j], s, 1e-6, "product");
    }
  }
  kept(n * m, m * p, n * p);
}
#elif SLICE == 1 /* sums, transposes, copies, diagonal products, submatrices */
void harness(void) {
  const int n = PICK(vp_srange(1, 4)), m = PICK(vp_srange(1, 4));
  const int nm = n * m;
  const double g = vp_dbl(-100, 100);
  start(nm, nm, nm);
  matrix_add_sc(n, m, a, b, g, c);
  for (int i = 0; i < nm; i++) {
    CHECK_EQ(c[i], a[i] + g * b[i], 1e-6, "scaled sum");
  }
  matrix_transpose(n, m, a, c);
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < m; j++) {
      CHECK_EQ(c[n * j + i], a[m * i + j], 0, "transpose");
    }
  }
  matrix_copy(n, m, a, c);
  for (int i = 0; i < nm; i++) {
    CHECK_EQ(c[i], a[i], 0, "copy");
  }
  matrix_multiply_diag_right(n, m, c, b);
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < m; j++) {
      CHECK_EQ(c[m * i + j], a[m * i + j] * b[j], 1e-6, "columns scaled by the diagonal");
    }
  }
  kept(nm, nm, nm);
  matrix_eye(n, c);
  for (int i = 0; i < n * n; i++) {
    if (n * n <= nm) {
      CHECK_EQ(c[i], i / n == i % n ? 1.0 : 0.0, 0, "identity");
    }
  }
  if (n == m) {
    kept(nm, nm, nm);
    matrix_copy(n, n, a, c);
    matrix_triu(n, c);
    for (int i = 0; i < nm; i++) {
      CHECK_EQ(c[i], i / n > i % n ? 0.0 : a[i], 0, "lower triangle cleared");
    }
    kept(nm, nm, nm);
  }
}
#elif SLICE == 2
void harness(void) { /* submatrices of a 4x3 matrix, any row and column choice */
  const int n = N_, m = M_;
  u32 rows[3], cols[3];
  start(12, 0, 9);
  for (int i = 0; i < 3; i++) {
    rows[i] = i < n ? (u32)PICK(vp_srange(0, 3)) : 0;
  }
  for (int i = 0; i < 3; i++) {
    cols[i] = i < m ? (u32)PICK(vp_srange(0, 2)) : 0;
  }
  submatrix(n, m, 3, a, rows, cols, c);
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < m; j++) {
      CHECK_EQ(c[m * i + j], a[3 * rows[i] + cols[j]], 0, "chosen rows and columns");
    }
  }
  for (int i = n * m; i < 9; i++) {
    CHECK_EQ(c[i], cg[G + i], 0, "nothing else is written");
  }
  submatrix_ul(n, m, 3, a, c);
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < m; j++) {
      CHECK_EQ(c[m * i + j], a[3 * i + j], 0, "upper left corner");
    }
  }
  kept(12, 0, 9);
}
#elif SLICE == 3 /* vectors */
void harness(void) {
  const int n = PICK(vp_srange(1, 5));
  const double g = vp_dbl(-100, 100);
  start(n, n, n);
  double dot = 0, sq = 0, sum = 0, dist = 0;
  for (int i = 0; i < n; i++) {
    dot += a[i] * b[i], sq += a[i] * a[i], sum += a[i], dist += (a[i] - b[i]) * (a[i] - b[i]);
  }
  CHECK_EQ(vector_dot(n, a, b), dot, 1e-6, "dot product");
  const double norm = vector_norm(n, a), d = vector_distance(n, a, b);
  CHECK_EQ(norm * norm, sq, 1e-6, "norm squared");
  CHECK_EQ(d * d, dist, 1e-6, "distance squared");
  CHECK(norm >= 0 && d >= 0, "not negative");
  CHECK_EQ(vector_mean(n, a), sum / n, 1e-9, "mean");
  vector_add_sc(n, a, b, g, c);
  for (int i = 0; i < n; i++) {
    CHECK_EQ(c[i], a[i] + g * b[i], 1e-6, "scaled sum");
  }
  vector_add(n, a, b, c);
  for (int i = 0; i < n; i++) {
    CHECK_EQ(c[i], a[i] + b[i], 1e-9, "sum");
  }
  vector_subtract(n, a, b, c);
  for (int i = 0; i < n; i++) {
    CHECK_EQ(c[i], a[i] - b[i], 1e-9, "difference");
  }
  kept(n, n, n);
  ASSUME(sq > 1);
  matrix_copy(1, n, a, c);
  vector_normalize(n, c);
  for (int i = 0; i < n; i++) {
    CHECK_EQ(c[i] * norm, a[i], 1e-6, "normalised");
  }
  kept(n, n, n);
  if (n == 3) {
    vector_cross(a, b, c);
    CHECK_EQ(c[0], a[1] * b[2] - a[2] * b[1], 1e-6, "cross product x");
    CHECK_EQ(c[1], a[2] * b[0] - a[0] * b[2], 1e-6, "cross product y");
    CHECK_EQ(c[2], a[0] * b[1] - a[1] * b[0], 1e-6, "cross product z");
    kept(n, n, n);
  }
}
#elif SLICE == 4 /* integer products */
void harness(void) {
  const int n = N_, m = M_, p = P_, R = (1 << 14) - 1;
  static s32 x[9], y[9], z[11];
  static s64 X[9], Y[9], Z[11];
  for (int i = 0; i < n * m; i++) {
    x[i] = vp_srange(-R, R);
    X[i] = vp_s32();
  }
  for (int i = 0; i < m * p; i++) {
    y[i] = vp_srange(-R, R);
    Y[i] = vp_s32();
    ASSUME(Y[i] > -1073741824 && Y[i] < 1073741824);
  }
  for (int i = 0; i < 11; i++) {
    z[i] = vp_s32();
    Z[i] = vp_s64();
  }
  const s32 g = z[0], h = z[n * p + 1];
  const s64 g2 = Z[0], h2 = Z[n * p + 1];
  matrix_multiply_i(n, m, p, x, y, z + 1);
  matrix_multiply_s64(n, m, p, X, Y, Z + 1);
  CHECK(z[0] == g && z[n * p + 1] == h && Z[0] == g2 && Z[n * p + 1] == h2, "only the output is written");
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < p; j++) {
      s32 s = 0;
      s64 t = 0;
      for (int k = 0; k < m; k++) {
        s += x[m * i + k] * y[p * k + j];
        t += X[m * i + k] * Y[p * k + j];
      }
      CHECK(z[1 + p * i + j] == s, "32-bit product");
      CHECK(Z[1 + p * i + j] == t, "64-bit product");
    }
  }
}
#elif SLICE == 5 /* inverse */
void harness(void) {
  const int n = N_;
  start(n * n, 0, n * n);
#ifdef DIAG /* rows in a cyclic order, one entry free */
  const int e = PICK(vp_srange(0, n * n - 1)), sh = DIAG;
  const double t = vp_dbl(2, 3);
  for (int i = 0; i < n * n; i++) {
    const int r = (i / n + sh) % n, k = i % n;
#ifdef PERM /* one negative entry in every row, zeros elsewhere */
    a0[i] = a[i] = i == e ? t : r == k ? -4 - r : 0;
    continue;
#endif
    a0[i] = a[i] = i == e ? t : r == k ? 8 + r : (double)((i * 7) % 5 - 2) / 4;
  }
#endif
#if SPARSE
  for (int i = 0; i < n * n; i++) {
    a0[i] = a[i] = ((SPARSE >> i) & 1) ? a[i] : (double)((i * 7) % 5 - 1);
  }
#endif
  const int res = matrix_inverse(n, a, c);
  if (res == 0) {
#ifndef DIAG
    WELL_CONDITIONED(a, n);
#endif
    for (int i = 0; i < n; i++) {
      for (int j = 0; j < n; j++) {
        double s = 0;
        for (int k = 0; k < n; k++) {
          s += c[n * i + k] * a[n * k + j];
        }
        CHECK_EQ(s, i == j ? 1.0 : 0.0, 1e-3, "the inverse times the matrix is the identity");
      }
    }
  } else {
    CHECK(res < 0, "failure is a negative code");
#ifdef DIAG
    CHECK(0, "the matrix is regular");
#else
    const double d = det(a, n);
    CHECK(d < 1e-50 && d > -1e-50, "a regular matrix has an inverse");
#endif
  }
  kept(n * n, 0, n * n);
}
#elif SLICE == 6 /* singular matrices: a row is the combination of two others (or zero) */
void harness(void) {
  const int n = N_;
  start(n * n, 0, n * n);
  const int dep = PICK(vp_srange(0, n - 1));
  const double f = n > 1 ? vp_dbl(-2, 2) : 0, h = n > 2 ? vp_dbl(-2, 2) : 0;
  const int r1 = (dep + 1) % n, r2 = (dep + 2) % n;
#if N_ > 4
  for (int i = 0; i < n * n; i++) {
    a[i] = i / n == i % n ? 8 : (double)((i * 7) % 5 - 2) / 4;
  }
  a[n * r1] = f;
  for (int j = 0; j < n; j++) {
    a[n * dep + j] = 2 * a[n * r1 + j] - a[n * r2 + j];
  }
#else
  for (int j = 0; j < n; j++) {
    a[n * dep + j] = (n > 1 ? f * a[n * r1 + j] : 0) + (n > 2 ? h * a[n * r2 + j] : 0);
  }
#endif
  memcpy(a0, a, sizeof a);
  CHECK(matrix_inverse(n, a, c) < 0, "a singular matrix is reported");
  kept(n * n, 0, n * n);
}
#endif

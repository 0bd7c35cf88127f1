// Stand-in for the parts of cuSOLVER/cuSPARSE that Theseus calls: the documented contract of each, computed densely.
#pragma once
#include <cstdint>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <stdexcept>
#include <vector>

enum cusolverStatus_t {
    CUSOLVER_STATUS_SUCCESS, CUSOLVER_STATUS_NOT_INITIALIZED, CUSOLVER_STATUS_ALLOC_FAILED, CUSOLVER_STATUS_INVALID_VALUE,
    CUSOLVER_STATUS_ARCH_MISMATCH, CUSOLVER_STATUS_EXECUTION_FAILED, CUSOLVER_STATUS_INTERNAL_ERROR,
    CUSOLVER_STATUS_MATRIX_TYPE_NOT_SUPPORTED
};
#define AT_CUDA_CHECK(x) do { if ((x) != 0) throw std::runtime_error("cuda error"); } while (0)
#define TORCH_CUDASPARSE_CHECK(x) do { if ((x) != 0) throw std::runtime_error("cusparse error"); } while (0)
struct EmulSp { int live = 1; };
typedef EmulSp* cusolverSpHandle_t;
struct EmulDescr { int base = 0, type = 0; };
typedef EmulDescr* cusparseMatDescr_t;
enum { CUSPARSE_INDEX_BASE_ZERO = 0, CUSPARSE_MATRIX_TYPE_GENERAL = 0 };
inline int cusparseCreateMatDescr(cusparseMatDescr_t* d) { *d = new EmulDescr; return 0; }
inline int cusparseDestroyMatDescr(cusparseMatDescr_t d) { delete d; return 0; }
inline int cusparseSetMatIndexBase(cusparseMatDescr_t d, int b) { d->base = b; return 0; }
inline int cusparseSetMatType(cusparseMatDescr_t d, int t) { d->type = t; return 0; }

namespace c10 { namespace cuda { inline void* getCurrentCUDAStream() { return nullptr; } } }
namespace at { namespace cuda {
template <typename H, void (*C)(H*), void (*D)(H)>
struct DeviceThreadHandlePool {
    struct PoolWindow {
        H h = nullptr;
        H reserve(int) { if (!h) C(&h); return h; }
        ~PoolWindow() { if (h) D(h); }
    };
    PoolWindow* newPoolWindow() { return new PoolWindow; }
};
} }

typedef cusolverStatus_t CS;
#define CSOK CUSOLVER_STATUS_SUCCESS
#define CSBAD CUSOLVER_STATUS_INVALID_VALUE
inline CS cusolverSpCreate(cusolverSpHandle_t* h) { *h = new EmulSp; return CSOK; }
inline CS cusolverSpDestroy(cusolverSpHandle_t h) { delete h; return CSOK; }
inline CS cusolverSpSetStream(cusolverSpHandle_t, void*) { return CSOK; }
inline bool emul_perm(const int* p, int n) {
    std::set<int> s(p, p + n);
    return (int)s.size() == n && (n == 0 || (*s.begin() == 0 && *s.rbegin() == n - 1));
}
inline CS emul_order(int n, int nnz, const int* rp, const int* ci, int* p, unsigned seed) {
    if (rp[n] != nnz) return CSBAD;
    for (int i = 0; i < nnz; i++) if (ci[i] < 0 || ci[i] >= n) return CSBAD;
    std::iota(p, p + n, 0);
    std::mt19937 rng(seed + n * 17 + nnz);
    std::shuffle(p, p + n, rng);
    return CSOK;
}
inline CS cusolverSpXcsrsymamdHost(EmulSp*, int n, int nnz, EmulDescr*, const int* r, const int* c, int* p) { return emul_order(n, nnz, r, c, p, 1); }
inline CS cusolverSpXcsrsymrcmHost(EmulSp*, int n, int nnz, EmulDescr*, const int* r, const int* c, int* p) { return emul_order(n, nnz, r, c, p, 2); }
inline CS cusolverSpXcsrsymmdqHost(EmulSp*, int n, int nnz, EmulDescr*, const int* r, const int* c, int* p) { return emul_order(n, nnz, r, c, p, 3); }
inline CS cusolverSpXcsrperm_bufferSizeHost(EmulSp*, int m, int n, int nnz, EmulDescr*, int*, int*, const int*, const int*, size_t* s) {
    *s = size_t(nnz) * 4 + m + n + 1;
    return CSOK;
}
// B = A(p, q): row i of B is row p[i] of A, column j of B is column q[j] of A
inline CS cusolverSpXcsrpermHost(EmulSp*, int m, int n, int nnz, EmulDescr*, int* rp, int* ci, const int* p, const int* q, int* map, void* buf) {
    if (!emul_perm(p, m) || !emul_perm(q, n)) return CSBAD;
    memset(buf, 1, size_t(nnz) * 4 + m + n + 1);
    std::vector<int> iq(n), r2(m + 1, 0), c2;
    for (int j = 0; j < n; j++) iq[q[j]] = j;
    for (int i = 0; i < m; i++) {
        std::set<int> cols;
        for (int k = rp[p[i]]; k < rp[p[i] + 1]; k++) cols.insert(iq[ci[k]]);
        c2.insert(c2.end(), cols.begin(), cols.end());
        r2[i + 1] = c2.size();
    }
    if ((int)c2.size() != nnz) return CSBAD;
    std::copy(r2.begin(), r2.end(), rp);
    std::copy(c2.begin(), c2.end(), ci);
    for (int k = 0; k < nnz; k++) map[k] = k;
    return CSOK;
}
struct EmulLU {
    int n = 0;
    std::vector<std::vector<char>> on;
    std::vector<int> s;
    bool analysed = false, factored = false;
    int sing = -1;
};
typedef EmulLU* csrluInfoHost_t;
inline CS cusolverSpCreateCsrluInfoHost(csrluInfoHost_t* i) { *i = new EmulLU; return CSOK; }
inline CS cusolverSpDestroyCsrluInfoHost(csrluInfoHost_t i) { delete i; return CSOK; }
inline CS cusolverSpXcsrluAnalysisHost(EmulSp*, int n, int nnz, EmulDescr*, const int* rp, const int* ci, EmulLU* I) {
    if (rp[n] != nnz) return CSBAD;
    I->n = n;
    I->s.resize(n);
    std::iota(I->s.begin(), I->s.end(), 0);
    std::mt19937 rng(n * 5 + nnz);
    std::shuffle(I->s.begin(), I->s.end(), rng);
    std::vector<int> is(n);
    for (int i = 0; i < n; i++) is[I->s[i]] = i;
    I->on.assign(n, std::vector<char>(n, 0));
    for (int r = 0; r < n; r++)
        for (int k = rp[r]; k < rp[r + 1]; k++) I->on[is[r]][is[ci[k]]] = 1;
    for (int c = 0; c < n; c++)
        for (int a = c + 1; a < n; a++)
            for (int b = c + 1; b < n; b++)
                if (I->on[a][c] && I->on[c][b]) I->on[a][b] = 1;
    I->analysed = true;
    return CSOK;
}
inline CS cusolverSpDcsrluBufferInfoHost(EmulSp*, int n, int nnz, EmulDescr*, const double* v, const int*, const int*, EmulLU* I, size_t* a, size_t* b) {
    volatile double t = 0;
    for (int k = 0; k < nnz; k++) t = t + v[k];
    *a = 8;
    *b = size_t(n) * 8 + 16;
    return I->analysed ? CSOK : CSBAD;
}
inline CS cusolverSpDcsrluFactorHost(EmulSp*, int n, int, EmulDescr*, const double* v, const int* rp, const int* ci, EmulLU* I, double, void* buf) {
    memset(buf, 0, size_t(n) * 8 + 16);
    for (int r = 0; r < n; r++) {
        double d = 0;
        for (int k = rp[r]; k < rp[r + 1]; k++) {
            if (ci[k] == r) d = v[k];
            else if (v[k] != 0) return CSBAD;  // only a diagonal model matrix is supported here
        }
        if (d == 0 && I->sing < 0) I->sing = r;
    }
    I->factored = true;
    return CSOK;
}
inline CS cusolverSpDcsrluZeroPivotHost(EmulSp*, EmulLU* I, double, int* s) { *s = I->sing; return I->factored ? CSOK : CSBAD; }
inline CS cusolverSpXcsrluNnzHost(EmulSp*, int* l, int* u, EmulLU* I) {
    *l = *u = 0;
    for (int r = 0; r < I->n; r++)
        for (int c = 0; c < I->n; c++)
            if (I->on[r][c]) { if (c < r) ++*l; else ++*u; if (c == r) ++*l; }
    return CSOK;
}
inline CS cusolverSpDcsrluExtractHost(EmulSp*, int* P, int* Q, EmulDescr*, double* lv, int* lr, int* lc, EmulDescr*, double* uv, int* ur, int* uc, EmulLU* I, void*) {
    if (!I->factored) return CSBAD;
    int nl = 0, nu = 0;
    lr[0] = ur[0] = 0;
    for (int r = 0; r < I->n; r++) {
        P[r] = Q[r] = I->s[r];
        for (int c = 0; c < I->n; c++)
            if (I->on[r][c]) {
                if (c <= r) { lv[nl] = c == r; lc[nl++] = c; }
                if (c >= r) { uv[nu] = c == r; uc[nu++] = c; }
            }
        lr[r + 1] = nl;
        ur[r + 1] = nu;
    }
    return CSOK;
}

enum cusolverRfFactorization_t { CUSOLVERRF_FACTORIZATION_ALG0, CUSOLVERRF_FACTORIZATION_ALG1, CUSOLVERRF_FACTORIZATION_ALG2 };
enum cusolverRfTriangularSolve_t { CUSOLVERRF_TRIANGULAR_SOLVE_ALG0, CUSOLVERRF_TRIANGULAR_SOLVE_ALG1, CUSOLVERRF_TRIANGULAR_SOLVE_ALG2, CUSOLVERRF_TRIANGULAR_SOLVE_ALG3 };
enum { CUSOLVERRF_MATRIX_FORMAT_CSR, CUSOLVERRF_UNIT_DIAGONAL_STORED_L, CUSOLVERRF_UNIT_DIAGONAL_ASSUMED_L, CUSOLVERRF_RESET_VALUES_FAST_MODE_ON, CUSOLVERRF_RESET_VALUES_FAST_MODE_OFF };
struct EmulRf {
    int batch = 0, n = 0, nnz = 0;
    bool setup = false, analysed = false, reset = false, factored = false;
    std::vector<int> rp, ci, P, Q;
    std::vector<std::vector<char>> on;
    std::vector<std::vector<double>> lu;
    std::vector<int> sing;
};
typedef EmulRf* cusolverRfHandle_t;
inline CS cusolverRfCreate(EmulRf** h) { *h = new EmulRf; return CSOK; }
inline CS cusolverRfDestroy(EmulRf* h) { delete h; return CSOK; }
inline CS cusolverRfSetNumericProperties(EmulRf*, double, double) { return CSOK; }
inline CS cusolverRfSetAlgs(EmulRf*, cusolverRfFactorization_t, cusolverRfTriangularSolve_t) { return CSOK; }
inline CS cusolverRfSetMatrixFormat(EmulRf*, int, int) { return CSOK; }
inline CS cusolverRfSetResetValuesFastMode(EmulRf*, int) { return CSOK; }
inline CS cusolverRfBatchSetupHost(int B, int n, int nnz, int* rp, int* ci, double** a, int, int* lr, int* lc, double*, int, int* ur, int* uc, double*, int* P, int* Q, EmulRf* h) {
    if (!emul_perm(P, n) || !emul_perm(Q, n) || rp[n] != nnz || B < 1) return CSBAD;
    h->batch = B; h->n = n; h->nnz = nnz;
    h->rp.assign(rp, rp + n + 1);
    h->ci.assign(ci, ci + nnz);
    h->P.assign(P, P + n);
    h->Q.assign(Q, Q + n);
    h->on.assign(n, std::vector<char>(n, 0));
    for (int r = 0; r < n; r++) {
        for (int k = lr[r]; k < lr[r + 1]; k++) h->on[r][lc[k]] = 1;
        for (int k = ur[r]; k < ur[r + 1]; k++) h->on[r][uc[k]] = 1;
    }
    for (int b = 0; b < B; b++) if (a[b] != a[0] + size_t(b) * nnz) return CSBAD;  // readable values of every element
    h->setup = true;
    return CSOK;
}
inline CS cusolverRfBatchAnalyze(EmulRf* h) { if (!h->setup) return CSBAD; h->analysed = true; return CSOK; }
inline CS cusolverRfBatchResetValues(int B, int n, int nnz, int* rp, int* ci, double** a, int* P, int* Q, EmulRf* h) {
    if (!h->analysed || B != h->batch || n != h->n || nnz != h->nnz) return CSBAD;
    if (!std::equal(h->rp.begin(), h->rp.end(), rp) || !std::equal(h->ci.begin(), h->ci.end(), ci)) return CSBAD;
    if (!std::equal(h->P.begin(), h->P.end(), P) || !std::equal(h->Q.begin(), h->Q.end(), Q)) return CSBAD;
    std::vector<int> iq(n);
    for (int j = 0; j < n; j++) iq[Q[j]] = j;
    h->lu.assign(B, std::vector<double>(size_t(n) * n, 0.0));
    for (int b = 0; b < B; b++)
        for (int i = 0; i < n; i++)
            for (int k = rp[P[i]]; k < rp[P[i] + 1]; k++) {
                int j = iq[ci[k]];
                if (!h->on[i][j]) return CSBAD;  // the factors' structure doesn't hold P A Q'
                h->lu[b][size_t(i) * n + j] = a[b][k];
            }
    h->reset = true;
    h->factored = false;
    return CSOK;
}
inline CS cusolverRfBatchRefactor(EmulRf* h) {
    if (!h->reset) return CSBAD;
    int n = h->n;
    h->sing.assign(h->batch, -1);
    for (int b = 0; b < h->batch; b++) {
        auto& m = h->lu[b];
        for (int k = 0; k < n; k++) {
            if (m[size_t(k) * n + k] == 0 && h->sing[b] < 0) h->sing[b] = k;
            for (int i = k + 1; i < n; i++) {
                double f = m[size_t(i) * n + k] /= m[size_t(k) * n + k];
                if (f != 0)
                    for (int j = k + 1; j < n; j++) {
                        double t = f * m[size_t(k) * n + j];
                        if (t != 0 && !h->on[i][j]) return CUSOLVER_STATUS_INTERNAL_ERROR;  // fill-in outside of the structure
                        m[size_t(i) * n + j] -= t;
                    }
            }
        }
    }
    h->factored = true;
    return CSOK;
}
inline CS cusolverRfBatchZeroPivot(EmulRf* h, int* p) { for (int b = 0; b < h->batch; b++) p[b] = h->sing[b]; return CSOK; }
inline CS cusolverRfBatchSolve(EmulRf* h, int* P, int* Q, int nrhs, double* T, int ldt, double** X, int ldx) {
    if (!h->factored || nrhs != 1 || ldt < h->n || ldx < h->n) return CSBAD;
    int n = h->n;
    for (size_t k = 0; k < size_t(2) * n * h->batch; k++) T[k] = 1e300;
    for (int b = 0; b < h->batch; b++) {
        auto& m = h->lu[b];
        std::vector<double> y(n);
        for (int i = 0; i < n; i++) {
            y[i] = X[b][P[i]];
            for (int j = 0; j < i; j++) y[i] -= m[size_t(i) * n + j] * y[j];
        }
        for (int i = n - 1; i >= 0; i--) {
            for (int j = i + 1; j < n; j++) y[i] -= m[size_t(i) * n + j] * y[j];
            y[i] /= m[size_t(i) * n + i];
        }
        for (int i = 0; i < n; i++) X[b][Q[i]] = y[i];
    }
    return CSOK;
}

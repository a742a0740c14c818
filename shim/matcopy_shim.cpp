// AOCL-BLAS's ?imatcopy_/?omatcopy_ have no leading ORDER argument (column-major is
// implied); the OpenBLAS routines of the same name do. The library is written against the
// former, so these definitions, linked ahead of OpenBLAS, give it the interface it expects.
#include <cstring>
#include <vector>
template <class T>
static void copy(char t, int m, int n, T alpha, const T *A, int lda, T *B, int ldb) {
    bool tr = t == 'T' || t == 't' || t == 'C' || t == 'c';
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++) {
            T *d = tr ? B + j + (size_t)i * ldb : B + i + (size_t)j * ldb;
            const T *s = A + i + (size_t)j * lda;
            if (alpha == T(1))
                memcpy(d, s, sizeof(T));
            else
                *d = alpha * *s;
        }
}
template <class T>
static void inplace(char t, int m, int n, T alpha, T *A, int lda, int ldb) {
    if (m <= 0 || n <= 0)
        return;
    std::vector<T> tmp((size_t)m * n);
    copy('N', m, n, T(1), A, lda, tmp.data(), m);
    copy(t, m, n, alpha, tmp.data(), m, A, ldb);
}
extern "C" {
void simatcopy_(char *t, int *m, int *n, const float *a, float *A, int *li, int *lo) {
    inplace(*t, *m, *n, *a, A, *li, *lo);
}
void dimatcopy_(char *t, int *m, int *n, const double *a, double *A, int *li, int *lo) {
    inplace(*t, *m, *n, *a, A, *li, *lo);
}
void somatcopy_(char *t, int *m, int *n, const float *a, const float *A, int *li, float *B, int *lo) {
    copy(*t, *m, *n, *a, A, *li, B, *lo);
}
void domatcopy_(char *t, int *m, int *n, const double *a, const double *A, int *li, double *B, int *lo) {
    copy(*t, *m, *n, *a, A, *li, B, *lo);
}
}

#include "aoclsparse.h"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>
struct shim_itsol {
    bool dbl = true;
    int n = 0, maxit = 500, it = 0, phase = 0;
    double abstol = 0, reltol = 1e-6, rz = 0, nb = 0;
    std::vector<double> bd, rd, pd, qd;
    std::vector<float> bs, rs, ps, qs;
};
template <class T> static std::vector<T> &B(shim_itsol *h);
#define ACC(N, T, f) template <> std::vector<T> &N<T>(shim_itsol * h) { return h->f; }
ACC(B, double, bd) ACC(B, float, bs)
template <class T> static std::vector<T> &R(shim_itsol *h);
ACC(R, double, rd) ACC(R, float, rs)
template <class T> static std::vector<T> &P(shim_itsol *h);
ACC(P, double, pd) ACC(P, float, ps)
template <class T> static std::vector<T> &Q(shim_itsol *h);
ACC(Q, double, qd) ACC(Q, float, qs)
template <class T> static aoclsparse_status input(shim_itsol *h, int n, const T *b) {
    try {
        h->n = n; h->phase = 0; h->it = 0;
        B<T>(h).assign(b, b + n); R<T>(h).assign(n, 0); P<T>(h).assign(n, 0); Q<T>(h).assign(n, 0);
    } catch (std::bad_alloc &) { return aoclsparse_status_memory_error; }
    return aoclsparse_status_success;
}
template <class T> static double dot(const std::vector<T> &a, const std::vector<T> &b) {
    double s = 0;
    for (size_t i = 0; i < a.size(); i++) s += (double)a[i] * b[i];
    return s;
}
template <class T>
static aoclsparse_status solve(shim_itsol *h, aoclsparse_itsol_rci_job *job, T **u, T **v, T *x, T rinfo[100]) {
    auto &b = B<T>(h); auto &r = R<T>(h); auto &p = P<T>(h); auto &q = Q<T>(h);
    auto report = [&](double nr) {
        std::memset(rinfo, 0, 100 * sizeof(T));
        rinfo[0] = (T)nr; rinfo[1] = (T)h->nb; rinfo[30] = (T)h->it;
    };
    if (h->phase == 0) { // ask for A x0
        for (int i = 0; i < h->n; i++) p[i] = x[i];
        h->nb = std::sqrt(dot(b, b));
        h->phase = 1; *u = p.data(); *v = q.data(); *job = aoclsparse_rci_mv;
        return aoclsparse_status_success;
    }
    double rr;
    if (h->phase == 1) {
        for (int i = 0; i < h->n; i++) { r[i] = b[i] - q[i]; p[i] = r[i]; }
        rr = dot(r, r); h->phase = 2;
    } else {
        double pq = dot(p, q);
        if (!(pq > 0)) { *job = aoclsparse_rci_stop; report(std::sqrt(h->rz)); return aoclsparse_status_numerical_error; }
        double a = h->rz / pq;
        for (int i = 0; i < h->n; i++) { x[i] += (T)(a * p[i]); r[i] -= (T)(a * q[i]); }
        rr = dot(r, r); h->it++;
        double be = rr / h->rz;
        for (int i = 0; i < h->n; i++) p[i] = (T)(r[i] + be * p[i]);
    }
    h->rz = rr;
    double nr = std::sqrt(rr);
    report(nr);
    if (nr <= h->abstol || nr <= h->reltol * h->nb || rr == 0) { *job = aoclsparse_rci_stop; return aoclsparse_status_success; }
    if (h->it >= h->maxit) { *job = aoclsparse_rci_stop; return aoclsparse_status_maxit; }
    *u = p.data(); *v = q.data(); *job = aoclsparse_rci_mv;
    return aoclsparse_status_success;
}
extern "C" {
aoclsparse_status aoclsparse_itsol_d_init(aoclsparse_itsol_handle *h) { *h = new (std::nothrow) shim_itsol; return *h ? aoclsparse_status_success : aoclsparse_status_memory_error; }
aoclsparse_status aoclsparse_itsol_s_init(aoclsparse_itsol_handle *h) { return aoclsparse_itsol_d_init(h); }
void aoclsparse_itsol_destroy(aoclsparse_itsol_handle *h) { delete *h; *h = nullptr; }
aoclsparse_status aoclsparse_itsol_option_set(aoclsparse_itsol_handle h, const char *o, const char *v) {
    if (!std::strcmp(o, "CG abs tolerance")) h->abstol = std::atof(v);
    else if (!std::strcmp(o, "CG rel tolerance")) h->reltol = std::atof(v);
    else if (!std::strcmp(o, "CG iteration limit")) h->maxit = std::atoi(v);
    else if (std::strcmp(o, "CG preconditioner")) return aoclsparse_status_invalid_value;
    return aoclsparse_status_success;
}
aoclsparse_status aoclsparse_itsol_d_rci_input(aoclsparse_itsol_handle h, aoclsparse_int n, const double *b) { return input(h, n, b); }
aoclsparse_status aoclsparse_itsol_s_rci_input(aoclsparse_itsol_handle h, aoclsparse_int n, const float *b) { return input(h, n, b); }
aoclsparse_status aoclsparse_itsol_d_rci_solve(aoclsparse_itsol_handle h, aoclsparse_itsol_rci_job *j, double **u, double **v, double *x, double ri[100]) { return solve(h, j, u, v, x, ri); }
aoclsparse_status aoclsparse_itsol_s_rci_solve(aoclsparse_itsol_handle h, aoclsparse_itsol_rci_job *j, float **u, float **v, float *x, float ri[100]) { return solve(h, j, u, v, x, ri); }
}

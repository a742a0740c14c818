// Stand-in for AOCL-Sparse's iterative solver interface (not installed in this
// sandbox): a textbook reverse-communication conjugate gradient method.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef int aoclsparse_int;
typedef enum {
    aoclsparse_status_success = 0, aoclsparse_status_not_implemented = 1,
    aoclsparse_status_invalid_pointer = 2, aoclsparse_status_invalid_size = 3,
    aoclsparse_status_internal_error = 4, aoclsparse_status_invalid_value = 5,
    aoclsparse_status_memory_error = 10, aoclsparse_status_numerical_error = 11,
    aoclsparse_status_maxit = 14
} aoclsparse_status;
typedef enum {
    aoclsparse_rci_interrupt = -1, aoclsparse_rci_stop = 0, aoclsparse_rci_start,
    aoclsparse_rci_mv, aoclsparse_rci_precond, aoclsparse_rci_stopping_criterion
} aoclsparse_itsol_rci_job;
typedef struct shim_itsol *aoclsparse_itsol_handle;
aoclsparse_status aoclsparse_itsol_d_init(aoclsparse_itsol_handle *);
aoclsparse_status aoclsparse_itsol_s_init(aoclsparse_itsol_handle *);
void aoclsparse_itsol_destroy(aoclsparse_itsol_handle *);
aoclsparse_status aoclsparse_itsol_option_set(aoclsparse_itsol_handle, const char *, const char *);
aoclsparse_status aoclsparse_itsol_d_rci_input(aoclsparse_itsol_handle, aoclsparse_int, const double *);
aoclsparse_status aoclsparse_itsol_s_rci_input(aoclsparse_itsol_handle, aoclsparse_int, const float *);
aoclsparse_status aoclsparse_itsol_d_rci_solve(aoclsparse_itsol_handle, aoclsparse_itsol_rci_job *, double **, double **, double *, double[100]);
aoclsparse_status aoclsparse_itsol_s_rci_solve(aoclsparse_itsol_handle, aoclsparse_itsol_rci_job *, float **, float **, float *, float[100]);
#ifdef __cplusplus
}
#endif

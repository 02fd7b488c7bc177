/* Makes FFTW planning fast and deterministic: PATIENT/MEASURE become ESTIMATE. */
#include <fftw3.h>
static unsigned quick(unsigned f) { return (f & ~(FFTW_PATIENT | FFTW_EXHAUSTIVE | FFTW_MEASURE)) | FFTW_ESTIMATE; }
#define WRAP(name, par, arg) \
   fftw_plan __real_##name par; \
   fftw_plan __wrap_##name par { flags = quick(flags); return __real_##name arg; }
typedef fftw_complex cx;
typedef const fftw_r2r_kind *kinds;
extern "C" {
WRAP(fftw_plan_r2r_1d, (int n, double *i, double *o, fftw_r2r_kind k, unsigned flags), (n, i, o, k, flags))
WRAP(fftw_plan_r2r, (int r, const int *n, double *i, double *o, kinds k, unsigned flags), (r, n, i, o, k, flags))
WRAP(fftw_plan_many_r2r, (int r, const int *n, int m, double *i, const int *ie, int is, int id,
     double *o, const int *oe, int os, int od, kinds k, unsigned flags), (r, n, m, i, ie, is, id, o, oe, os, od, k, flags))
WRAP(fftw_plan_dft_1d, (int n, cx *i, cx *o, int s, unsigned flags), (n, i, o, s, flags))
WRAP(fftw_plan_dft_r2c_1d, (int n, double *i, cx *o, unsigned flags), (n, i, o, flags))
WRAP(fftw_plan_dft_c2r_1d, (int n, cx *i, double *o, unsigned flags), (n, i, o, flags))
WRAP(fftw_plan_guru_r2r, (int r, const fftw_iodim *d, int hr, const fftw_iodim *h, double *i, double *o, kinds k, unsigned flags),
     (r, d, hr, h, i, o, k, flags))
}

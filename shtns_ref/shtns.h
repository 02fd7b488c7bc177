/*
 * Stand-in for the part of the SHTns API that scalar-field-kerr uses.
 *
 * SHTns itself is not available offline.  This header/implementation pair
 * follows the documented behaviour of SHTns 3.x for scalar transforms:
 *   - Gauss-Legendre nodes ordered from the north pole (ct decreasing),
 *   - equally spaced longitudes phi_j = 2 pi j / (nphi*mres),
 *   - orthonormal harmonics with the Condon-Shortley phase,
 *   - real fields: coefficients for m>=0 only, index LM(shtns,l,m),
 *   - complex fields: alm[l*(l+1)+m] (see DESIGN.md about mmax<lmax),
 *   - spatial layout chosen by SHT_NATIVE_LAYOUT/SHT_THETA_CONTIGUOUS
 *     (theta fastest) or SHT_PHI_CONTIGUOUS (phi fastest).
 *   - real analysis (spat_to_SH) destroys the spatial data passed in,
 *   - normalisation/phase conventions and the polar threshold are honoured.
 * The transforms are direct sums: slow, simple, thread-safe.
 */
#ifndef SHTNS_STANDIN_H
#define SHTNS_STANDIN_H
#include <complex>
#include <cstddef>

typedef std::complex<double> cplx;

#ifdef __cplusplus
extern "C" {
#endif

enum shtns_norm {
   sht_orthonormal = 0,
   sht_fourpi      = 1,
   sht_schmidt     = 2,
   sht_for_rotations = 3
};
#define SHT_NO_CS_PHASE (256*4)
#define SHT_REAL_NORM   (256*8)

enum shtns_type {
   sht_gauss       = 0,
   sht_auto        = 1,
   sht_reg_fast    = 2,
   sht_reg_dct     = 3,
   sht_quick_init  = 4,
   sht_reg_poles   = 5,
   sht_gauss_fly   = 6
};
#define SHT_NATIVE_LAYOUT     0
#define SHT_THETA_CONTIGUOUS  256
#define SHT_PHI_CONTIGUOUS    (256*2)
#define SHT_SOUTH_POLE_FIRST  (256*32)
#define SHT_SCALAR_ONLY       (256*16)

struct shtns_info {
   unsigned int   nlm;
   unsigned short lmax;
   unsigned short mmax;
   unsigned short mres;
   unsigned short nlat_2;
   unsigned int   nlat;
   unsigned int   nphi;
   unsigned int   nspat;
   unsigned short *li;
   unsigned short *mi;
   double *ct;
   double *st;
   unsigned int nlat_padded;
   unsigned int nlm_cplx;
};
typedef struct shtns_info* shtns_cfg;

#define NSPAT_ALLOC(shtns) ((size_t)((shtns)->nspat))
#define LiM(shtns, l,im) ( (((im)*(2*(shtns)->lmax + 2 - ((im)+1)*(shtns)->mres))>>1) + (l) )
#define LM(shtns, l,m) ( (((((unsigned short)(m))/(shtns)->mres)*(2*(shtns)->lmax + 2 - ((m)+(shtns)->mres)))>>1) + (l) )

void      shtns_verbose(int);
int       shtns_use_threads(int);
shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm norm);
int       shtns_set_grid(shtns_cfg, enum shtns_type flags, double eps, int nlat, int nphi);
void      shtns_destroy(shtns_cfg);

void spat_to_SH(shtns_cfg shtns, double *Vr, cplx *Qlm);
void SH_to_spat(shtns_cfg shtns, cplx *Qlm, double *Vr);
void spat_cplx_to_SH(shtns_cfg shtns, cplx *z, cplx *alm);
void SH_to_spat_cplx(shtns_cfg shtns, cplx *alm, cplx *z);

#ifdef __cplusplus
}
#endif
#endif

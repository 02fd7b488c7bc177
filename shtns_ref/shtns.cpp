#include "shtns.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>

/* The public struct is the first member, so shtns_cfg can be cast back. */
struct Impl {
   shtns_info pub;
   int phi_contig;
   int norm, nocs, realnorm;
   std::vector<double> ct, st, wg;
   std::vector<unsigned short> li, mi;
   std::vector<double> plm;   /* [it*nlm + lm], orthonormal incl. CS phase */
   std::vector<double> conv;  /* harmonic of the chosen convention / orthonormal one */
   std::vector<double> cs, sn; /* cos/sin(2 pi k/nphi), k=0..nphi-1 */
   size_t at(size_t it, size_t ip) const {
      return phi_contig ? it*pub.nphi + ip : ip*pub.nlat + it;
   }
};

static void fail(const char *msg)
{
   fprintf(stderr, "[shtns stand-in] %s\n", msg);
   abort();
}

extern "C" {

void shtns_verbose(int) {}
int  shtns_use_threads(int n) { return n; }

shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm norm)
{
   if (lmax < 0 || mmax < 0)   fail("negative lmax or mmax");
   if (mres != 1)              fail("stand-in supports mres=1 only");
   if (mmax*mres > lmax)       fail("mmax*mres > lmax");
   Impl *s = new Impl();
   s->norm = int(norm) & 255;
   s->nocs = (int(norm) & SHT_NO_CS_PHASE) != 0;
   s->realnorm = (int(norm) & SHT_REAL_NORM) != 0;
   if (s->norm > sht_schmidt) fail("stand-in supports the orthonormal, 4pi and Schmidt normalisations");
   s->pub.lmax = lmax; s->pub.mmax = mmax; s->pub.mres = mres;
   s->pub.nlm = (mmax+1)*(lmax+1) - (mmax*(mmax+1))/2;
   s->pub.nlm_cplx = (lmax+1)*(lmax+1);
   s->li.resize(s->pub.nlm); s->mi.resize(s->pub.nlm);
   for (int m=0; m<=mmax; m++) for (int l=m; l<=lmax; l++) {
      const size_t lm = LM(&s->pub,l,m);
      s->li.at(lm) = l; s->mi.at(lm) = m;
   }
   s->pub.li = s->li.data(); s->pub.mi = s->mi.data();
   s->pub.nlat = s->pub.nphi = s->pub.nspat = 0;
   s->pub.ct = s->pub.st = nullptr;
   return &s->pub;
}

int shtns_set_grid(shtns_cfg c, enum shtns_type flags, double eps, int nlat, int nphi)
{
   Impl *s = (Impl*)c;
   const int f = int(flags);
   const int type = f & 255;
   if (type != sht_gauss && type != sht_gauss_fly && type != sht_quick_init)
      fail("stand-in supports Gauss grids only");
   if (nlat <= c->lmax)   fail("nlat must be larger than lmax");
   if (nphi <= 2*c->mmax) fail("nphi must be larger than 2*mmax");
   s->phi_contig = (f & SHT_PHI_CONTIGUOUS) ? 1 : 0;
   const bool south = (f & SHT_SOUTH_POLE_FIRST) != 0;
   c->nlat = nlat; c->nphi = nphi; c->nspat = nlat*nphi; c->nlat_2 = (nlat+1)/2;
   c->nlat_padded = nlat;
   /* Gauss-Legendre nodes and weights */
   s->ct.resize(nlat); s->st.resize(nlat); s->wg.resize(nlat);
   std::vector<long double> x(nlat);
   const long double pi = 3.14159265358979323846264338327950288L;
   for (int i=0; i<nlat; i++) {
      long double z = cosl(pi*(i+0.75L)/(nlat+0.5L)), dp = 1;
      for (int k=0; k<60; k++) {
         long double p0=1, p1=0;
         for (int j=1; j<=nlat; j++) {
            const long double p2=p1; p1=p0;
            p0=((2*j-1)*z*p1-(j-1)*p2)/j;
         }
         dp = (nlat==1) ? 1.0L : nlat*(z*p0-p1)/(z*z-1);
         const long double dz = p0/dp;
         z -= dz;
         if (fabsl(dz) < 1e-19L) break;
      }
      x[i] = z;
      s->wg[i] = double(2.0L/((1-z*z)*dp*dp));
   }
   for (int i=0; i<nlat/2; i++) { /* exact north/south symmetry */
      x[nlat-1-i] = -x[i]; s->wg[nlat-1-i] = s->wg[i];
   }
   if (nlat & 1) x[nlat/2] = 0;
   if (south) for (int i=0; i<nlat; i++) x[i] = -x[i];
   const int lmax=c->lmax, mmax=c->mmax;
   s->plm.assign(size_t(nlat)*c->nlm, 0.0);
   for (int it=0; it<nlat; it++) {
      const long double z = x[it], sth = sqrtl((1-z)*(1+z));
      s->ct[it] = double(z); s->st[it] = double(sth);
      long double pmm = sqrtl(1.0L/(4*pi));
      for (int m=0; m<=mmax; m++) {
         if (m>0) pmm *= -sth*sqrtl((2.0L*m+1)/(2.0L*m)); /* Condon-Shortley */
         long double a=pmm, b=0;
         s->plm[size_t(it)*c->nlm + LM(c,m,m)] = double(a);
         for (int l=m+1; l<=lmax; l++) {
            const long double L=l, M=m;
            const long double al = sqrtl((4*L*L-1)/(L*L-M*M));
            const long double bl = sqrtl(((L-1)*(L-1)-M*M)/(4*(L-1)*(L-1)-1));
            const long double n = al*(z*a - (l>m+1 ? bl*b : 0.0L));
            b=a; a=n;
            s->plm[size_t(it)*c->nlm + LM(c,l,m)] = double(a);
         }
      }
   }
   /* polar optimisation: harmonics of order m are dropped near the poles where all of them are below eps */
   for (int it=0; it<nlat && eps>0; it++) for (int m=0; m<=mmax; m++) {
      double big=0;
      for (int l=m; l<=lmax; l++) big=std::max(big,std::fabs(s->plm[size_t(it)*c->nlm+LM(c,l,m)]));
      if (big<eps) for (int l=m; l<=lmax; l++) s->plm[size_t(it)*c->nlm+LM(c,l,m)]=0;
   }
   /* other conventions: Y = orthonormal Y times this factor */
   s->conv.resize(c->nlm);
   for (int m=0; m<=mmax; m++) for (int l=m; l<=lmax; l++) {
      double f=1;
      if (s->norm==sht_fourpi)  f*=std::sqrt(4*M_PI);
      if (s->norm==sht_schmidt) f*=std::sqrt(4*M_PI/(2*l+1));
      if (s->realnorm && m>0)   f*=std::sqrt(0.5);
      if (s->nocs && (m&1))     f=-f;
      s->conv[LM(c,l,m)]=f;
   }
   s->cs.resize(nphi); s->sn.resize(nphi);
   for (int k=0; k<nphi; k++) {
      s->cs[k] = double(cosl(2*pi*k/nphi)); s->sn[k] = double(sinl(2*pi*k/nphi));
   }
   c->ct = s->ct.data(); c->st = s->st.data();
   return int(c->nspat);
}

void shtns_destroy(shtns_cfg c) { delete (Impl*)c; }

void spat_to_SH(shtns_cfg c, double *Vr, cplx *Qlm)
{
   Impl *s = (Impl*)c;
   const size_t nlat=c->nlat, nphi=c->nphi;
   for (size_t lm=0; lm<c->nlm; lm++) Qlm[lm]=0;
   for (size_t it=0; it<nlat; it++) {
      const double *p = &s->plm[it*c->nlm];
      const double w = s->wg[it]*2*M_PI/nphi;
      for (size_t m=0; m<=c->mmax; m++) {
         double re=0, im=0;
         for (size_t ip=0; ip<nphi; ip++) {
            const size_t k=(m*ip)%nphi;
            const double v=Vr[s->at(it,ip)];
            re += v*s->cs[k]; im -= v*s->sn[k];
         }
         if (m==0) im=0;
         for (size_t l=m; l<=c->lmax; l++) {
            const size_t lm=LM(c,l,m);
            Qlm[lm] += w*p[lm]*cplx(re,im);
         }
      }
   }
   for (size_t lm=0; lm<c->nlm; lm++) Qlm[lm]/=s->conv[lm];
   /* SHTns transforms in place: the spatial data passed in is lost */
   for (size_t i=0; i<c->nspat; i++) Vr[i]=NAN;
}

void SH_to_spat(shtns_cfg c, cplx *Qlm, double *Vr)
{
   Impl *s = (Impl*)c;
   const size_t nlat=c->nlat, nphi=c->nphi;
   std::vector<double> row(nphi);
   for (size_t it=0; it<nlat; it++) {
      const double *p = &s->plm[it*c->nlm];
      for (size_t ip=0; ip<nphi; ip++) row[ip]=0;
      for (size_t m=0; m<=c->mmax; m++) {
         double re=0, im=0;
         for (size_t l=m; l<=c->lmax; l++) {
            const size_t lm=LM(c,l,m);
            const double q=p[lm]*s->conv[lm];
            re += q*Qlm[lm].real(); im += q*Qlm[lm].imag();
         }
         if (m==0) { for (size_t ip=0; ip<nphi; ip++) row[ip]+=re; continue; }
         for (size_t ip=0; ip<nphi; ip++) {
            const size_t k=(m*ip)%nphi;
            row[ip] += 2*(re*s->cs[k] - im*s->sn[k]);
         }
      }
      for (size_t ip=0; ip<nphi; ip++) Vr[s->at(it,ip)]=row[ip];
   }
}

void spat_cplx_to_SH(shtns_cfg c, cplx *z, cplx *alm)
{
   const size_t n=c->nspat;
   std::vector<double> re(n), im(n);
   std::vector<cplx> a(c->nlm), b(c->nlm);
   for (size_t i=0; i<n; i++) { re[i]=z[i].real(); im[i]=z[i].imag(); }
   spat_to_SH(c, re.data(), a.data());
   spat_to_SH(c, im.data(), b.data());
   const cplx I(0,1);
   for (size_t i=0; i<c->nlm_cplx; i++) alm[i]=0;
   for (int l=0; l<=c->lmax; l++)
   for (int m=0; m<=l && m<=c->mmax; m++) {
      const size_t lm=LM(c,l,m);
      alm[l*(l+1)+m] = a[lm] + I*b[lm];
      if (m>0) {
         const double sg = (m&1) ? -1.0 : 1.0;
         alm[l*(l+1)-m] = sg*(std::conj(a[lm]) + I*std::conj(b[lm]));
      }
   }
}

void SH_to_spat_cplx(shtns_cfg c, cplx *alm, cplx *z)
{
   const size_t n=c->nspat;
   std::vector<double> re(n), im(n);
   std::vector<cplx> a(c->nlm), b(c->nlm);
   const cplx I(0,1);
   for (int l=0; l<=c->lmax; l++)
   for (int m=0; m<=l && m<=c->mmax; m++) {
      const size_t lm=LM(c,l,m);
      const cplx p = alm[l*(l+1)+m];
      if (m==0) { a[lm]=p.real(); b[lm]=p.imag(); continue; }
      const double sg = (m&1) ? -1.0 : 1.0;
      const cplx q = sg*std::conj(alm[l*(l+1)-m]); /* = a - i b */
      a[lm] = 0.5*(p+q);
      b[lm] = -0.5*I*(p-q);
   }
   SH_to_spat(c, a.data(), re.data());
   SH_to_spat(c, b.data(), im.data());
   for (size_t i=0; i<n; i++) z[i]=cplx(re[i],im[i]);
}

} /* extern "C" */

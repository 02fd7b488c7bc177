/*
 * Command server exposing the public API of scalar-field-kerr.
 *
 *   server STDOUT_FILE REQ_FD REPLY_FD
 *
 * The library prints to stdout; fd 1 is redirected to STDOUT_FILE.
 * Message: u32 nbytes, then
 *   u32 len + op, u32 nI + i64[], u32 nD + f64[], u32 nS + (u32 len+bytes)[],
 *   u32 nA + (u64 len + f64[])[]
 * Reply has the same shape; its op is "ok" or "err".
 */
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <vector>
#include <malloc.h>
#include <omp.h>

#include "params.hpp"
#include "cheb.hpp"
#include "finite_diff.hpp"
#include "sphere.hpp"
#include "grid.hpp"
#include "field.hpp"
#include "initial_data.hpp"
#include "scalar_eom.hpp"
#include "io.hpp"

typedef std::vector<double> V;
typedef std::vector<cplx>   CV;

struct Msg {
   std::string op;
   std::vector<int64_t> I;
   std::vector<double> D;
   std::vector<std::string> S;
   std::vector<V> A;
};

static int req_fd=3, rep_fd=4;

static bool rd(void *p, size_t n)
{
   char *c=(char*)p;
   while (n) { ssize_t k=read(req_fd,c,n); if (k<=0) return false; c+=k; n-=k; }
   return true;
}
static void wr(const void *p, size_t n)
{
   const char *c=(const char*)p;
   while (n) { ssize_t k=write(rep_fd,c,n); if (k<=0) _exit(9); c+=k; n-=k; }
}
static bool recv_msg(Msg &m)
{
   uint32_t nb; if (!rd(&nb,4)) return false;
   std::vector<char> b(nb); if (nb && !rd(b.data(),nb)) return false;
   size_t o=0;
   auto u32=[&]{ uint32_t x; memcpy(&x,&b[o],4); o+=4; return x; };
   auto u64=[&]{ uint64_t x; memcpy(&x,&b[o],8); o+=8; return x; };
   uint32_t n=u32(); m.op.assign(b.data()+o,n); o+=n;
   n=u32(); m.I.resize(n); if (n) memcpy(m.I.data(),b.data()+o,8*size_t(n)); o+=8*size_t(n);
   n=u32(); m.D.resize(n); if (n) memcpy(m.D.data(),b.data()+o,8*size_t(n)); o+=8*size_t(n);
   n=u32(); m.S.resize(n);
   for (auto &s: m.S) { uint32_t k=u32(); s.assign(b.data()+o,k); o+=k; }
   n=u32(); m.A.resize(n);
   for (auto &a: m.A) { uint64_t k=u64(); a.resize(k); if (k) memcpy(a.data(),b.data()+o,8*k); o+=8*k; }
   return true;
}
static void send_msg(const Msg &m)
{
   std::string b;
   auto u32=[&](uint32_t x){ b.append((char*)&x,4); };
   auto u64=[&](uint64_t x){ b.append((char*)&x,8); };
   u32(m.op.size()); b+=m.op;
   u32(m.I.size()); b.append((const char*)m.I.data(),8*m.I.size());
   u32(m.D.size()); b.append((const char*)m.D.data(),8*m.D.size());
   u32(m.S.size()); for (auto &s: m.S) { u32(s.size()); b+=s; }
   u32(m.A.size()); for (auto &a: m.A) { u64(a.size()); b.append((const char*)a.data(),8*a.size()); }
   uint32_t n=b.size(); wr(&n,4); wr(b.data(),b.size());
}

template<class T> struct Pool {
   std::map<int64_t,std::unique_ptr<T>> m;
   T &get(int64_t h) {
      auto it=m.find(h);
      if (it==m.end()) throw std::runtime_error("server: no such handle");
      return *it->second;
   }
};
static int64_t next_handle=1;
static Pool<Cheb> chebs; static Pool<FD> fds; static Pool<Sphere> spheres;
static Pool<Grid> grids; static Pool<Params> paramss; static Pool<Scalar_eom> eoms;
static Pool<Field> fields;

static V split(const CV &c) { V o; for (auto &z: c) { o.push_back(z.real()); o.push_back(z.imag()); } return o; }
static CV join(const V &v) { CV o(v.size()/2); for (size_t i=0;i<o.size();i++) o[i]=cplx(v[2*i],v[2*i+1]); return o; }

static V &level(Field &f, int64_t which)
{
   switch (which) { case 0: return f.n; case 1: return f.l; case 2: return f.np1; case 3: return f.k; }
   throw std::runtime_error("server: bad level");
}

static void handle(Msg &q, Msg &r)
{
   const std::string &op=q.op;
   auto I=[&](size_t i){ return q.I.at(i); };
   auto D=[&](size_t i){ return q.D.at(i); };
   auto A=[&](size_t i)->V&{ return q.A.at(i); };
   auto outA=[&](const V &v){ r.A.push_back(v); };
   auto H=[&](size_t i){ return q.I.at(i); };

   if (op=="reset") {
      eoms.m.clear(); grids.m.clear(); spheres.m.clear(); chebs.m.clear();
      fds.m.clear(); fields.m.clear(); paramss.m.clear();
   }
   else if (op=="omp") { omp_set_num_threads(int(I(0))); omp_set_max_active_levels(int(I(1))); omp_set_dynamic(0); }
   else if (op=="variant") {
#if USE_CHEB
      r.I.push_back(1);
#else
      r.I.push_back(0);
#endif
#if SHTNS_CONTIGUOUS_LONGITUDES
      r.I.push_back(1);
#else
      r.I.push_back(0);
#endif
   }
   else if (op=="heap") { struct mallinfo2 mi=mallinfo2(); r.I.push_back(int64_t(mi.uordblks)+int64_t(mi.hblkhd)); }
   /* ---------------- Cheb ---------------- */
   else if (op=="cheb_new") { int64_t h=next_handle++; chebs.m[h].reset(new Cheb(size_t(I(0)),D(0),D(1))); r.I.push_back(h); }
   else if (op=="cheb_del") { chebs.get(H(0)); chebs.m.erase(H(0)); }
   else if (op=="cheb_info") {
      Cheb &c=chebs.get(H(0)); r.I.push_back(c.n()); r.D={c.lower(),c.upper()};
      V p; for (size_t i=0;i<c.n();i++) p.push_back(c.pt(i)); outA(p);
   }
   else if (op=="cheb_to_ch"||op=="cheb_to_po"||op=="cheb_der") {
      Cheb &c=chebs.get(H(0)); V in=A(0), out=A(1);
      if (op=="cheb_to_ch") c.to_ch(in,out); else if (op=="cheb_to_po") c.to_po(in,out); else c.der(in,out);
      outA(out); outA(in);
   }
   else if (op=="cheb_filter") { Cheb &c=chebs.get(H(0)); V v=A(0); c.filter(v); outA(v); }
   /* ---------------- FD ---------------- */
   else if (op=="fd_new") { int64_t h=next_handle++; fds.m[h].reset(new FD(size_t(I(0)),D(0),D(1))); r.I.push_back(h); }
   else if (op=="fd_del") { fds.get(H(0)); fds.m.erase(H(0)); }
   else if (op=="fd_info") {
      FD &c=fds.get(H(0)); r.I.push_back(c.n()); r.D={c.lower(),c.upper()};
      V p; for (size_t i=0;i<c.n();i++) p.push_back(c.pt(i)); outA(p);
   }
   else if (op=="fd_der"||op=="fd_der2") {
      FD &c=fds.get(H(0)); V in=A(0), out=A(1);
      if (op=="fd_der") c.der(in,out); else c.der2(in,out);
      outA(out); outA(in);
   }
   else if (op=="fd_filter") { FD &c=fds.get(H(0)); V v=A(0); c.filter(v); outA(v); }
   /* ---------------- Sphere ---------------- */
   else if (op=="sph_new") { int64_t h=next_handle++; spheres.m[h].reset(new Sphere(I(0),I(1),I(2),I(3))); r.I.push_back(h); }
   else if (op=="sph_del") { spheres.get(H(0)); spheres.m.erase(H(0)); }
   else if (op=="sph_info") {
      Sphere &s=spheres.get(H(0));
      r.I={int64_t(s.nlat()),int64_t(s.nphi()),int64_t(s.nSph()),int64_t(s.nYlm())};
      V th,ph,ix;
      for (size_t i=0;i<s.nlat();i++) th.push_back(s.theta(i));
      for (size_t i=0;i<s.nphi();i++) ph.push_back(s.phi(i));
      for (size_t i=0;i<s.nlat();i++) for (size_t j=0;j<s.nphi();j++) ix.push_back(double(s.indx(i,j)));
      outA(th); outA(ph); outA(ix);
   }
   else if (op=="sph_to_Ylm") { Sphere &s=spheres.get(H(0)); const V in=A(0); CV o(s.nYlm(),cplx(NAN,NAN)); s.to_Ylm(in,o); outA(split(o)); outA(in); }
   else if (op=="sph_to_Sph") { Sphere &s=spheres.get(H(0)); const CV in=join(A(0)); V o(s.nSph(),NAN); s.to_Sph(in,o); outA(o); outA(split(in)); }
   else if (op=="sph_to_Ylm_c") { Sphere &s=spheres.get(H(0)); const CV in=join(A(0)); CV o(size_t(I(1)),cplx(NAN,NAN)); s.to_Ylm(in,o); outA(split(o)); outA(split(in)); }
   else if (op=="sph_to_Sph_c") { Sphere &s=spheres.get(H(0)); const CV in=join(A(0)); CV o(s.nSph(),cplx(NAN,NAN)); s.to_Sph(in,o); outA(split(o)); outA(split(in)); }
   else if (op=="sph_lap"||op=="sph_dphi"||op=="sph_X") {
      Sphere &s=spheres.get(H(0)); const V in=A(0); V o(s.nSph(),NAN);
      if (op=="sph_lap") s.laplace_beltrami(in,o); else if (op=="sph_dphi") s.partial_phi(in,o); else s.sphereX(in,o);
      outA(o); outA(in);
   }
   else if (op=="sph_raise"||op=="sph_lower") {
      Sphere &s=spheres.get(H(0)); const V in=A(0); CV o(s.nSph(),cplx(NAN,NAN));
      if (op=="sph_raise") s.raise(in,o); else s.lower(in,o);
      outA(split(o)); outA(in);
   }
   else if (op=="sph_filter") { Sphere &s=spheres.get(H(0)); V v=A(0); s.filter(v); outA(v); }
   else if (op=="sph_power") { Sphere &s=spheres.get(H(0)); const V in=A(0); V p(size_t(I(1)),NAN); s.power_spectrum(in,p); outA(p); outA(in); }
   else if (op=="sph_ylm") { Sphere &s=spheres.get(H(0)); outA(s.compute_ylm(I(1),I(2))); }
   /* ---------------- Grid ---------------- */
   else if (op=="grid_new") {
      int64_t h=next_handle++;
      grids.m[h].reset(new Grid(D(0),D(1),D(2),I(0),I(1),I(2),I(3),I(4))); r.I.push_back(h);
   }
   else if (op=="grid_del") { grids.get(H(0)); grids.m.erase(H(0)); }
   else if (op=="grid_info") {
      Grid &g=grids.get(H(0));
      const size_t nx=g.nx(), nt=g.nlat(), np=g.nphi(), nl=g.nl(), N=nx*nt*np;
      r.I={int64_t(nx),int64_t(nl),int64_t(g.nm()),int64_t(nt),int64_t(np)};
      r.D={g.cl(),g.Rmin(),g.Rmax()};
      V i3,i2,irt,irp,irl,R3,R3f,X,Xf,T,Tf,RL,RLf,NL,NLf;
      for (size_t x=0;x<nx;x++) for (size_t t=0;t<nt;t++) for (size_t p=0;p<np;p++) {
         i3.push_back(double(g.indx_R_th_ph(x,t,p)));
         V a=g.R_th_ph(x,t,p), b=g.x_y_z(x,t,p);
         R3.insert(R3.end(),a.begin(),a.end()); X.insert(X.end(),b.begin(),b.end());
      }
      for (size_t i=0;i<N;i++) { V a=g.R_th_ph(i), b=g.x_y_z(i); R3f.insert(R3f.end(),a.begin(),a.end()); Xf.insert(Xf.end(),b.begin(),b.end()); }
      for (size_t t=0;t<nt;t++) for (size_t p=0;p<np;p++) { i2.push_back(double(g.indx_th_ph(t,p))); V a=g.th_ph(t,p); T.insert(T.end(),a.begin(),a.end()); }
      for (size_t i=0;i<nt*np;i++) { V a=g.th_ph(i); Tf.insert(Tf.end(),a.begin(),a.end()); }
      for (size_t x=0;x<nx;x++) for (size_t t=0;t<nt;t++) irt.push_back(double(g.indx_r_th(x,t)));
      for (size_t x=0;x<nx;x++) for (size_t p=0;p<np;p++) irp.push_back(double(g.indx_r_ph(x,p)));
      for (size_t x=0;x<nx;x++) for (size_t l=0;l<nl;l++) { irl.push_back(double(g.indx_r_l(x,l))); V a=g.R_l(x,l); RL.insert(RL.end(),a.begin(),a.end()); }
      for (size_t i=0;i<nx*nl;i++) { V a=g.R_l(i); RLf.insert(RLf.end(),a.begin(),a.end()); }
#if USE_CHEB
      for (size_t x=0;x<nx;x++) for (size_t l=0;l<nl;l++) { V a=g.n_l(x,l); NL.insert(NL.end(),a.begin(),a.end()); }
      for (size_t i=0;i<nx*nl;i++) { V a=g.n_l(i); NLf.insert(NLf.end(),a.begin(),a.end()); }
#endif
      for (const V *v: {&i3,&i2,&irt,&irp,&irl,&R3,&R3f,&X,&Xf,&T,&Tf,&RL,&RLf,&NL,&NLf}) outA(*v);
   }
   else if (op=="grid_coords") { /* compact: index map, R per ix, theta per it, phi per ip */
      Grid &g=grids.get(H(0));
      const size_t nx=g.nx(), nt=g.nlat(), np=g.nphi();
      V i3,R,th,ph;
      for (size_t x=0;x<nx;x++) for (size_t t=0;t<nt;t++) for (size_t p=0;p<np;p++) i3.push_back(double(g.indx_R_th_ph(x,t,p)));
      for (size_t x=0;x<nx;x++) R.push_back(g.R_th_ph(x,0,0)[0]);
      for (size_t t=0;t<nt;t++) th.push_back(g.R_th_ph(0,t,0)[1]);
      for (size_t p=0;p<np;p++) ph.push_back(g.R_th_ph(0,0,p)[2]);
      outA(i3); outA(R); outA(th); outA(ph);
   }
   else if (op=="grid_R_to_r") { Grid &g=grids.get(H(0)); V o; for (double x: A(0)) o.push_back(g.R_to_r(x)); outA(o); }
   else if (op=="grid_op") {
      /* I(1): which */
      Grid &g=grids.get(H(0)); const V in=A(0); V o=A(1);
      switch (I(1)) {
         case 0: g.set_partial_phi(in,o); break;
         case 1: g.set_spherical_lap(in,o); break;
         case 2: g.set_sphereX(in,o); break;
         case 3: g.set_partial_R(in,o); break;
         case 4: g.set_partial_r(in,o); break;
         case 5: g.set_partial2_r(in,o); break;
         case 6: g.set_angular_power_spectrum(in,o); break;
#if USE_CHEB
         case 7: g.set_n_l_coef(in,o); break;
#endif
         default: throw std::runtime_error("server: bad grid op");
      }
      outA(o); outA(in);
   }
   else if (op=="grid_filter") { Grid &g=grids.get(H(0)); V v=A(0); g.filter(v); outA(v); }
   else if (op=="grid_res") { Grid &g=grids.get(H(0)); const V a=A(0),b=A(1),c=A(2); r.D.push_back(g.norm_indep_res(D(0),a,b,c)); outA(a); outA(b); outA(c); }
   else if (op=="grid_tv") { Grid &g=grids.get(H(0)); const V a=A(0); r.D.push_back(g.total_variation(a)); outA(a); }
   else if (op=="grid_ylm") { Grid &g=grids.get(H(0)); outA(g.compute_ylm(I(1),I(2))); }
   else if (op=="grid_row") {
      /* I: h, which, set?, i, j ; A: in, out */
      Grid &g=grids.get(H(0)); const V in=A(0); V out=A(1);
      const size_t i=I(3), j=I(4); const bool st=I(2);
      switch (I(1)) {
         case 0: if (st) g.set_row_R(i,j,in,out);    else g.get_row_R(i,j,in,out); break;
         case 1: if (st) g.set_row_th(i,j,in,out);   else g.get_row_th(i,j,in,out); break;
         case 2: if (st) g.set_row_ph(i,j,in,out);   else g.get_row_ph(i,j,in,out); break;
         case 3: if (st) g.set_row_n(i,in,out);      else g.get_row_n(i,in,out); break;
         case 4: if (st) g.set_row_R_th(i,in,out);   else g.get_row_R_th(i,in,out); break;
         case 5: if (st) g.set_row_R_ph(i,in,out);   else g.get_row_R_ph(i,in,out); break;
         case 6: if (st) g.set_row_th_ph(i,in,out);  else g.get_row_th_ph(i,in,out); break;
         case 7: if (st) g.set_row_l(i,in,out);      else throw std::runtime_error("server: no get_row_l"); break;
         default: throw std::runtime_error("server: bad row");
      }
      outA(out); outA(in);
   }
   /* ---------------- Params ---------------- */
   else if (op=="params_new") { int64_t h=next_handle++; paramss.m[h].reset(new Params(q.S.at(0))); r.I.push_back(h); }
   else if (op=="params_info") {
      Params &p=paramss.get(H(0));
      r.I={int64_t(p.nt()),int64_t(p.nx()),int64_t(p.nl()),int64_t(p.nm()),int64_t(p.nlat()),int64_t(p.nphi()),
           int64_t(p.t_step_save()),int64_t(p.l_ang()),int64_t(p.m_ang())};
      r.D={p.dt(),p.cl(),p.Rmax(),p.Rmin(),p.bh_mass(),p.bh_spin(),p.km1(),p.k0(),p.k1(),p.k2(),
           p.V2(),p.V3(),p.V4(),p.amp(),p.rl(),p.ru()};
      r.S={p.id(),p.initial_data_direction()};
   }
   /* ---------------- Field ---------------- */
   else if (op=="field_new") { int64_t h=next_handle++; fields.m[h].reset(new Field(q.S.at(0),size_t(I(0)),D(0))); r.I.push_back(h); }
   else if (op=="field_get") { Field &f=fields.get(H(0)); r.I.push_back(f.size); r.S.push_back(f.name); outA(f.n); outA(f.l); outA(f.np1); outA(f.k); }
   else if (op=="field_set") { Field &f=fields.get(H(0)); level(f,I(1))=A(0); }
   else if (op=="field_shift") { fields.get(H(0)).shift(); }
   /* ---------------- Scalar_eom ---------------- */
   else if (op=="eom_new") { int64_t h=next_handle++; eoms.m[h].reset(new Scalar_eom(grids.get(I(0)),paramss.get(I(1)))); r.I.push_back(h); }
   else if (op=="eom_k") {
      Scalar_eom &e=eoms.get(H(0)); Grid &g=grids.get(I(1)); const V f=A(0),p=A(1); V fk=A(2),pk=A(3);
      e.set_k(g,f,p,fk,pk); outA(fk); outA(pk); outA(f); outA(p);
   }
   else if (op=="eom_rho") {
      Scalar_eom &e=eoms.get(H(0)); Grid &g=grids.get(I(1)); const V f=A(0),p=A(1); V o=A(2);
      e.set_rho(g,f,p,o); outA(o); outA(f); outA(p);
   }
   else if (op=="eom_level") { eoms.get(H(0)).set_level(int(I(1)),fields.get(I(2)),fields.get(I(3))); }
   else if (op=="eom_step") { eoms.get(H(0)).time_step(grids.get(I(1)),fields.get(I(2)),fields.get(I(3))); }
   /* ---------------- initial data, csv ---------------- */
   else if (op=="id") { V f=A(0),p=A(1); ID::compact_pulse(paramss.get(I(0)),grids.get(I(1)),f,p); outA(f); outA(p); }
   else if (op=="csv") { const V v=A(0); Csv::write(q.S.at(0),size_t(I(0)),v); outA(v); }
   else if (op=="csv_R") { const V v=A(0); Csv::write_R_psl(grids.get(I(0)),q.S.at(0),I(1)!=0,int(I(2)),v); outA(v); }
   else if (op=="csv_n") {
#if USE_CHEB
      const V v=A(0); Csv::write_n_psl(grids.get(I(0)),q.S.at(0),I(1)!=0,int(I(2)),v); outA(v);
#else
      throw std::runtime_error("server: no write_n_psl");
#endif
   }
   else if (op=="csv_xyz") { const V v=A(0); Csv::write_x_y_z(grids.get(I(0)),q.S.at(0),I(1)!=0,int(I(2)),D(0),D(1),D(2),D(3),v); outA(v); }
   else throw std::runtime_error("server: unknown op "+op);
}

int main(int argc, char **argv)
{
   if (argc!=4) return 2;
   req_fd=atoi(argv[2]); rep_fd=atoi(argv[3]);
   int fd=open(argv[1],O_CREAT|O_TRUNC|O_WRONLY|O_APPEND,0644);
   if (fd<0) return 2;
   dup2(fd,1); close(fd);
   for (;;) {
      Msg q; if (!recv_msg(q)) break;
      Msg r; r.op="ok";
      if (q.op=="quit") { send_msg(r); break; }
      if (q.op=="trunc") { std::cout.flush(); fflush(stdout); if (ftruncate(1,0)) {} send_msg(r); continue; }
      try { handle(q,r); }
      catch (const std::exception &e) { r=Msg(); r.op="err"; r.S.push_back(e.what()); }
      std::cout.flush(); fflush(stdout);
      send_msg(r);
   }
   std::cout.flush();
   _exit(0);
}

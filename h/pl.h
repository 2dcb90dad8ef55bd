// C++ view of the PLASMA API: one traits class per precision.
#pragma once
#include <complex>
#include <cstdint>
#include <type_traits>
#include "plasma.h"
extern "C" {
#include "plasma_core_blas.h"
}
#undef I
#undef complex

template<class T> struct CT_ { typedef T type; };
template<> struct CT_<std::complex<float>> { typedef plasma_complex32_t type; };
template<> struct CT_<std::complex<double>> { typedef plasma_complex64_t type; };
template<class T> using CT = typename CT_<T>::type;
template<class T> struct RT_ { typedef T type; };
template<class R> struct RT_<std::complex<R>> { typedef R type; };
template<class T> using RT = typename RT_<T>::type;
template<class T> constexpr bool is_cplx = !std::is_same<T, RT<T>>::value;

inline float cs(float x) { return x; }
inline double cs(double x) { return x; }
inline plasma_complex32_t cs(std::complex<float> x) { plasma_complex32_t r; __real__ r = x.real(); __imag__ r = x.imag(); return r; }
inline plasma_complex64_t cs(std::complex<double> x) { plasma_complex64_t r; __real__ r = x.real(); __imag__ r = x.imag(); return r; }
inline float *cp(float *p) { return p; }
inline double *cp(double *p) { return p; }
inline plasma_complex32_t *cp(std::complex<float> *p) { return (plasma_complex32_t *)p; }
inline plasma_complex64_t *cp(std::complex<double> *p) { return (plasma_complex64_t *)p; }

template<class T> struct P;
typedef plasma_desc_t D;
typedef plasma_sequence_t Sq;
typedef plasma_request_t Rq;
typedef plasma_workspace_t Ws;

#define PL_COMMON(T, R, p, AMAX, LANHE, HEMM, HERK, HER2K, HETRF, HETRS, HESV, HETRFN, UNGQR, UNGLQ, UNMQR, UNMLQ) \
template<> struct P<T> { \
  typedef R Re; static constexpr char pc = #p[0]; \
  static int amax(int cr, int m, int n, T *A, int lda, R *v) { return plasma_##AMAX(cr, m, n, cp(A), lda, v); } \
  static int gbmm(int ta, int tb, int m, int n, int k, int kl, int ku, T al, T *A, int lda, T *B, int ldb, T be, T *C, int ldc) { return plasma_##p##gbmm(ta, tb, m, n, k, kl, ku, cs(al), cp(A), lda, cp(B), ldb, cs(be), cp(C), ldc); } \
  static int gbsv(int n, int kl, int ku, int nrhs, T *AB, int ldab, int *ipiv, T *B, int ldb) { return plasma_##p##gbsv(n, kl, ku, nrhs, cp(AB), ldab, ipiv, cp(B), ldb); } \
  static int gbtrf(int m, int n, int kl, int ku, T *AB, int ldab, int *ipiv) { return plasma_##p##gbtrf(m, n, kl, ku, cp(AB), ldab, ipiv); } \
  static int gbtrs(int tr, int n, int kl, int ku, int nrhs, T *AB, int ldab, int *ipiv, T *B, int ldb) { return plasma_##p##gbtrs(tr, n, kl, ku, nrhs, cp(AB), ldab, ipiv, cp(B), ldb); } \
  static int geadd(int ta, int m, int n, T al, T *A, int lda, T be, T *B, int ldb) { return plasma_##p##geadd(ta, m, n, cs(al), cp(A), lda, cs(be), cp(B), ldb); } \
  static int geinv(int m, int n, T *A, int lda, int *ipiv) { return plasma_##p##geinv(m, n, cp(A), lda, ipiv); } \
  static int gelqf(int m, int n, T *A, int lda, D *Td) { return plasma_##p##gelqf(m, n, cp(A), lda, Td); } \
  static int gelqs(int m, int n, int nrhs, T *A, int lda, D Td, T *B, int ldb) { return plasma_##p##gelqs(m, n, nrhs, cp(A), lda, Td, cp(B), ldb); } \
  static int gels(int tr, int m, int n, int nrhs, T *A, int lda, D *Td, T *B, int ldb) { return plasma_##p##gels(tr, m, n, nrhs, cp(A), lda, Td, cp(B), ldb); } \
  static int gemm(int ta, int tb, int m, int n, int k, T al, T *A, int lda, T *B, int ldb, T be, T *C, int ldc) { return plasma_##p##gemm(ta, tb, m, n, k, cs(al), cp(A), lda, cp(B), ldb, cs(be), cp(C), ldc); } \
  static int geqrf(int m, int n, T *A, int lda, D *Td) { return plasma_##p##geqrf(m, n, cp(A), lda, Td); } \
  static int geqrs(int m, int n, int nrhs, T *A, int lda, D Td, T *B, int ldb) { return plasma_##p##geqrs(m, n, nrhs, cp(A), lda, Td, cp(B), ldb); } \
  static int gesv(int n, int nrhs, T *A, int lda, int *ipiv, T *B, int ldb) { return plasma_##p##gesv(n, nrhs, cp(A), lda, ipiv, cp(B), ldb); } \
  static int gesdd(int ju, int jv, int m, int n, T *A, int lda, D *Td, R *S, T *U, int ldu, T *VT, int ldvt) { return plasma_##p##gesdd(ju, jv, m, n, cp(A), lda, Td, S, cp(U), ldu, cp(VT), ldvt); } \
  static int getrf(int m, int n, T *A, int lda, int *ipiv) { return plasma_##p##getrf(m, n, cp(A), lda, ipiv); } \
  static int getri(int n, T *A, int lda, int *ipiv) { return plasma_##p##getri(n, cp(A), lda, ipiv); } \
  static int getri_aux(int n, T *A, int lda) { return plasma_##p##getri_aux(n, cp(A), lda); } \
  static int getrs(int tr, int n, int nrhs, T *A, int lda, int *ipiv, T *B, int ldb) { return plasma_##p##getrs(tr, n, nrhs, cp(A), lda, ipiv, cp(B), ldb); } \
  static int hemm(int sd, int ul, int m, int n, T al, T *A, int lda, T *B, int ldb, T be, T *C, int ldc) { return plasma_##HEMM(sd, ul, m, n, cs(al), cp(A), lda, cp(B), ldb, cs(be), cp(C), ldc); } \
  static int her2k(int ul, int tr, int n, int k, T al, T *A, int lda, T *B, int ldb, R be, T *C, int ldc) { return plasma_##HER2K(ul, tr, n, k, cs(al), cp(A), lda, cp(B), ldb, be, cp(C), ldc); } \
  static int herk(int ul, int tr, int n, int k, R al, T *A, int lda, R be, T *C, int ldc) { return plasma_##HERK(ul, tr, n, k, al, cp(A), lda, be, cp(C), ldc); } \
  static int hetrf(int ul, int n, T *A, int lda, int *ip, T *Tb, int ldt, int *ip2) { return plasma_##HETRF(ul, n, cp(A), lda, ip, cp(Tb), ldt, ip2); } \
  static int hesv(int ul, int n, int nrhs, T *A, int lda, int *ip, T *Tb, int ldt, int *ip2, T *B, int ldb) { return plasma_##HESV(ul, n, nrhs, cp(A), lda, ip, cp(Tb), ldt, ip2, cp(B), ldb); } \
  static int hetrs(int ul, int n, int nrhs, T *A, int lda, int *ip, T *Tb, int ldt, int *ip2, T *B, int ldb) { return plasma_##HETRS(ul, n, nrhs, cp(A), lda, ip, cp(Tb), ldt, ip2, cp(B), ldb); } \
  static int lacpy(int ul, int ta, int m, int n, T *A, int lda, T *B, int ldb) { return plasma_##p##lacpy(ul, ta, m, n, cp(A), lda, cp(B), ldb); } \
  static R langb(int nm, int m, int n, int kl, int ku, T *AB, int ldab) { return plasma_##p##langb(nm, m, n, kl, ku, cp(AB), ldab); } \
  static R lange(int nm, int m, int n, T *A, int lda) { return plasma_##p##lange(nm, m, n, cp(A), lda); } \
  static R lanhe(int nm, int ul, int n, T *A, int lda) { return plasma_##LANHE(nm, ul, n, cp(A), lda); } \
  static R lansy(int nm, int ul, int n, T *A, int lda) { return plasma_##p##lansy(nm, ul, n, cp(A), lda); } \
  static R lantr(int nm, int ul, int dg, int m, int n, T *A, int lda) { return plasma_##p##lantr(nm, ul, dg, m, n, cp(A), lda); } \
  static int lascl(int ul, R cf, R ct, int m, int n, T *A, int lda) { return plasma_##p##lascl(ul, cf, ct, m, n, cp(A), lda); } \
  static void gbset(int m, int n, int kl, int ku, T *A, int lda) { plasma_##p##gbset(m, n, kl, ku, cp(A), lda); } \
  static int laset(int ul, int m, int n, T al, T be, T *A, int lda) { return plasma_##p##laset(ul, m, n, cs(al), cs(be), cp(A), lda); } \
  static int geswp(int cr, int m, int n, T *A, int lda, int *ipiv, int inc) { return plasma_##p##geswp(cr, m, n, cp(A), lda, ipiv, inc); } \
  static int lauum(int ul, int n, T *A, int lda) { return plasma_##p##lauum(ul, n, cp(A), lda); } \
  static int pbsv(int ul, int n, int kd, int nrhs, T *AB, int ldab, T *B, int ldb) { return plasma_##p##pbsv(ul, n, kd, nrhs, cp(AB), ldab, cp(B), ldb); } \
  static int pbtrf(int ul, int n, int kd, T *AB, int ldab) { return plasma_##p##pbtrf(ul, n, kd, cp(AB), ldab); } \
  static int pbtrs(int ul, int n, int kd, int nrhs, T *AB, int ldab, T *B, int ldb) { return plasma_##p##pbtrs(ul, n, kd, nrhs, cp(AB), ldab, cp(B), ldb); } \
  static int poinv(int ul, int n, T *A, int lda) { return plasma_##p##poinv(ul, n, cp(A), lda); } \
  static int posv(int ul, int n, int nrhs, T *A, int lda, T *B, int ldb) { return plasma_##p##posv(ul, n, nrhs, cp(A), lda, cp(B), ldb); } \
  static int potrf(int ul, int n, T *A, int lda) { return plasma_##p##potrf(ul, n, cp(A), lda); } \
  static int potri(int ul, int n, T *A, int lda) { return plasma_##p##potri(ul, n, cp(A), lda); } \
  static int potrs(int ul, int n, int nrhs, T *A, int lda, T *B, int ldb) { return plasma_##p##potrs(ul, n, nrhs, cp(A), lda, cp(B), ldb); } \
  static int symm(int sd, int ul, int m, int n, T al, T *A, int lda, T *B, int ldb, T be, T *C, int ldc) { return plasma_##p##symm(sd, ul, m, n, cs(al), cp(A), lda, cp(B), ldb, cs(be), cp(C), ldc); } \
  static int syr2k(int ul, int tr, int n, int k, T al, T *A, int lda, T *B, int ldb, T be, T *C, int ldc) { return plasma_##p##syr2k(ul, tr, n, k, cs(al), cp(A), lda, cp(B), ldb, cs(be), cp(C), ldc); } \
  static int syrk(int ul, int tr, int n, int k, T al, T *A, int lda, T be, T *C, int ldc) { return plasma_##p##syrk(ul, tr, n, k, cs(al), cp(A), lda, cs(be), cp(C), ldc); } \
  static int tradd(int ul, int ta, int m, int n, T al, T *A, int lda, T be, T *B, int ldb) { return plasma_##p##tradd(ul, ta, m, n, cs(al), cp(A), lda, cs(be), cp(B), ldb); } \
  static int trmm(int sd, int ul, int ta, int dg, int m, int n, T al, T *A, int lda, T *B, int ldb) { return plasma_##p##trmm(sd, ul, ta, dg, m, n, cs(al), cp(A), lda, cp(B), ldb); } \
  static int trsm(int sd, int ul, int ta, int dg, int m, int n, T al, T *A, int lda, T *B, int ldb) { return plasma_##p##trsm(sd, ul, ta, dg, m, n, cs(al), cp(A), lda, cp(B), ldb); } \
  static int trtri(int ul, int dg, int n, T *A, int lda) { return plasma_##p##trtri(ul, dg, n, cp(A), lda); } \
  static int unglq(int m, int n, int k, T *A, int lda, D Td, T *Q, int ldq) { return plasma_##UNGLQ(m, n, k, cp(A), lda, Td, cp(Q), ldq); } \
  static int ungqr(int m, int n, int k, T *A, int lda, D Td, T *Q, int ldq) { return plasma_##UNGQR(m, n, k, cp(A), lda, Td, cp(Q), ldq); } \
  static int unmlq(int sd, int tr, int m, int n, int k, T *A, int lda, D Td, T *C, int ldc) { return plasma_##UNMLQ(sd, tr, m, n, k, cp(A), lda, Td, cp(C), ldc); } \
  static int unmqr(int sd, int tr, int m, int n, int k, T *A, int lda, D Td, T *C, int ldc) { return plasma_##UNMQR(sd, tr, m, n, k, cp(A), lda, Td, cp(C), ldc); } \
  /* tile asynchronous */ \
  static void o_gemm(int ta, int tb, T al, D A, D B, T be, D C, Sq *s, Rq *r) { plasma_omp_##p##gemm(ta, tb, cs(al), A, B, cs(be), C, s, r); } \
  static void o_symm(int sd, int ul, T al, D A, D B, T be, D C, Sq *s, Rq *r) { plasma_omp_##p##symm(sd, ul, cs(al), A, B, cs(be), C, s, r); } \
  static void o_hemm(int sd, int ul, T al, D A, D B, T be, D C, Sq *s, Rq *r) { plasma_omp_##HEMM(sd, ul, cs(al), A, B, cs(be), C, s, r); } \
  static void o_syrk(int ul, int tr, T al, D A, T be, D C, Sq *s, Rq *r) { plasma_omp_##p##syrk(ul, tr, cs(al), A, cs(be), C, s, r); } \
  static void o_syr2k(int ul, int tr, T al, D A, D B, T be, D C, Sq *s, Rq *r) { plasma_omp_##p##syr2k(ul, tr, cs(al), A, B, cs(be), C, s, r); } \
  static void o_trmm(int sd, int ul, int ta, int dg, T al, D A, D B, Sq *s, Rq *r) { plasma_omp_##p##trmm(sd, ul, ta, dg, cs(al), A, B, s, r); } \
  static void o_trsm(int sd, int ul, int ta, int dg, T al, D A, D B, Sq *s, Rq *r) { plasma_omp_##p##trsm(sd, ul, ta, dg, cs(al), A, B, s, r); } \
  static void o_geadd(int ta, T al, D A, T be, D B, Sq *s, Rq *r) { plasma_omp_##p##geadd(ta, cs(al), A, cs(be), B, s, r); } \
  static void o_tradd(int ul, int ta, T al, D A, T be, D B, Sq *s, Rq *r) { plasma_omp_##p##tradd(ul, ta, cs(al), A, cs(be), B, s, r); } \
  static void o_lacpy(int ul, int ta, D A, D B, Sq *s, Rq *r) { plasma_omp_##p##lacpy(ul, ta, A, B, s, r); } \
  static void o_laset(int ul, T al, T be, D A, Sq *s, Rq *r) { plasma_omp_##p##laset(ul, cs(al), cs(be), A, s, r); } \
  static void o_lascl(int ul, R cf, R ct, D A, Sq *s, Rq *r) { plasma_omp_##p##lascl(ul, cf, ct, A, s, r); } \
  static void o_lauum(int ul, D A, Sq *s, Rq *r) { plasma_omp_##p##lauum(ul, A, s, r); } \
  static void o_trtri(int ul, int dg, D A, Sq *s, Rq *r) { plasma_omp_##p##trtri(ul, dg, A, s, r); } \
  static void o_potrf(int ul, D A, Sq *s, Rq *r) { plasma_omp_##p##potrf(ul, A, s, r); } \
  static void o_potrs(int ul, D A, D B, Sq *s, Rq *r) { plasma_omp_##p##potrs(ul, A, B, s, r); } \
  static void o_posv(int ul, D A, D B, Sq *s, Rq *r) { plasma_omp_##p##posv(ul, A, B, s, r); } \
  static void o_potri(int ul, D A, Sq *s, Rq *r) { plasma_omp_##p##potri(ul, A, s, r); } \
  static void o_poinv(int ul, D A, Sq *s, Rq *r) { plasma_omp_##p##poinv(ul, A, s, r); } \
  static void o_getrf(D A, int *ip, Sq *s, Rq *r) { plasma_omp_##p##getrf(A, ip, s, r); } \
  static void o_getrs(int tr, D A, int *ip, D B, Sq *s, Rq *r) { plasma_omp_##p##getrs(tr, A, ip, B, s, r); } \
  static void o_gesv(D A, int *ip, D B, Sq *s, Rq *r) { plasma_omp_##p##gesv(A, ip, B, s, r); } \
  static void o_getri(D A, int *ip, D W, Sq *s, Rq *r) { plasma_omp_##p##getri(A, ip, W, s, r); } \
  static void o_geinv(D A, int *ip, D W, Sq *s, Rq *r) { plasma_omp_##p##geinv(A, ip, W, s, r); } \
  static void o_geswp(int cr, D A, int *ip, int inc, Sq *s, Rq *r) { plasma_omp_##p##geswp(cr, A, ip, inc, s, r); } \
  static void o_geqrf(D A, D Td, Ws w, Sq *s, Rq *r) { plasma_omp_##p##geqrf(A, Td, w, s, r); } \
  static void o_gelqf(D A, D Td, Ws w, Sq *s, Rq *r) { plasma_omp_##p##gelqf(A, Td, w, s, r); } \
  static void o_ungqr(D A, D Td, D Q, Ws w, Sq *s, Rq *r) { plasma_omp_##UNGQR(A, Td, Q, w, s, r); } \
  static void o_unglq(D A, D Td, D Q, Ws w, Sq *s, Rq *r) { plasma_omp_##UNGLQ(A, Td, Q, w, s, r); } \
  static void o_unmqr(int sd, int tr, D A, D Td, D C, Ws w, Sq *s, Rq *r) { plasma_omp_##UNMQR(sd, tr, A, Td, C, w, s, r); } \
  static void o_unmlq(int sd, int tr, D A, D Td, D C, Ws w, Sq *s, Rq *r) { plasma_omp_##UNMLQ(sd, tr, A, Td, C, w, s, r); } \
  static void o_lange(int nm, D A, R *w, R *v, Sq *s, Rq *r) { plasma_omp_##p##lange(nm, A, w, v, s, r); } \
  static void o_lanhe(int nm, int ul, D A, R *w, R *v, Sq *s, Rq *r) { plasma_omp_##LANHE(nm, ul, A, w, v, s, r); } \
  static void o_lantr(int nm, int ul, int dg, D A, R *w, R *v, Sq *s, Rq *r) { plasma_omp_##p##lantr(nm, ul, dg, A, w, v, s, r); } \
  static void o_herk(int ul, int tr, R al, D A, R be, D C, Sq *s, Rq *r) { plasma_omp_##HERK(ul, tr, al, A, be, C, s, r); } \
  static void o_her2k(int ul, int tr, T al, D A, D B, R be, D C, Sq *s, Rq *r) { plasma_omp_##HER2K(ul, tr, cs(al), A, B, be, C, s, r); } \
  static void o_geqrs(D A, D t, D B, Ws w, Sq *s, Rq *r) { plasma_omp_##p##geqrs(A, t, B, w, s, r); } \
  static void o_gelqs(D A, D t, D B, Ws w, Sq *s, Rq *r) { plasma_omp_##p##gelqs(A, t, B, w, s, r); } \
  static void o_lansy(int nm, int ul, D A, R *w, R *v, Sq *s, Rq *r) { plasma_omp_##p##lansy(nm, ul, A, w, v, s, r); } \
  static void o_ge2desc(T *A, int lda, D d, Sq *s, Rq *r) { plasma_omp_##p##ge2desc(cp(A), lda, d, s, r); } \
  static void o_desc2ge(D d, T *A, int lda, Sq *s, Rq *r) { plasma_omp_##p##desc2ge(d, cp(A), lda, s, r); } \
  static void o_tr2desc(T *A, int lda, D d, Sq *s, Rq *r) { plasma_omp_##p##tr2desc(cp(A), lda, d, s, r); } \
  static void o_desc2tr(D d, T *A, int lda, Sq *s, Rq *r) { plasma_omp_##p##desc2tr(d, cp(A), lda, s, r); } \
  static void o_pb2desc(T *A, int lda, D d, Sq *s, Rq *r) { plasma_omp_##p##pb2desc(cp(A), lda, d, s, r); } \
  static void o_desc2pb(D d, T *A, int lda, Sq *s, Rq *r) { plasma_omp_##p##desc2pb(d, cp(A), lda, s, r); } \
  static void o_gb2desc(T *A, int lda, D d, Sq *s, Rq *r) { plasma_omp_##p##gb2desc(cp(A), lda, d, s, r); } \
};

PL_COMMON(float, float, s, samax, slansy, ssymm, ssyrk, ssyr2k, ssytrf, ssytrs, ssysv, , sorgqr, sorglq, sormqr, sormlq)
PL_COMMON(double, double, d, damax, dlansy, dsymm, dsyrk, dsyr2k, dsytrf, dsytrs, dsysv, , dorgqr, dorglq, dormqr, dormlq)
PL_COMMON(std::complex<float>, float, c, scamax, clanhe, chemm, cherk, cher2k, chetrf, chetrs, chesv, , cungqr, cunglq, cunmqr, cunmlq)
PL_COMMON(std::complex<double>, double, z, dzamax, zlanhe, zhemm, zherk, zher2k, zhetrf, zhetrs, zhesv, , zungqr, zunglq, zunmqr, zunmlq)

template<class T> constexpr int dtype_of() { return std::is_same<T, float>::value ? PlasmaRealFloat : std::is_same<T, double>::value ? PlasmaRealDouble : std::is_same<T, std::complex<float>>::value ? PlasmaComplexFloat : PlasmaComplexDouble; }
inline int pl_stevx2(int job, int range, int n, int k, float *d, float *e, float vl, float vu, int il, int iu, int *found, float *val, int *mul, float *vec) { return plasma_sstevx2(job, range, n, k, d, e, vl, vu, il, iu, found, val, mul, vec); }
inline int pl_stevx2(int job, int range, int n, int k, double *d, double *e, double vl, double vu, int il, int iu, int *found, double *val, int *mul, double *vec) { return plasma_dstevx2(job, range, n, k, d, e, vl, vu, il, iu, found, val, mul, vec); }
// mixed precision (double with single)
template<class T> struct PM;
#define PL_MIXED(T, TS, zc, z, c, lag2c_, clag2z_) \
template<> struct PM<T> { typedef TS Lo; \
  static int gesv(int n, int nrhs, T *A, int lda, int *ip, T *B, int ldb, T *X, int ldx, int *it) { return plasma_##zc##gesv(n, nrhs, cp(A), lda, ip, cp(B), ldb, cp(X), ldx, it); } \
  static int posv(int ul, int n, int nrhs, T *A, int lda, T *B, int ldb, T *X, int ldx, int *it) { return plasma_##zc##posv(ul, n, nrhs, cp(A), lda, cp(B), ldb, cp(X), ldx, it); } \
  static int gbsv(int n, int kl, int ku, int nrhs, T *A, int lda, int *ip, T *B, int ldb, T *X, int ldx, int *it) { return plasma_##zc##gbsv(n, kl, ku, nrhs, cp(A), lda, ip, cp(B), ldb, cp(X), ldx, it); } \
  static int lag2c(int m, int n, T *A, int lda, TS *As, int ldas) { return plasma_##lag2c_(m, n, cp(A), lda, cp(As), ldas); } \
  static int clag2z(int m, int n, TS *As, int ldas, T *A, int lda) { return plasma_##clag2z_(m, n, cp(As), ldas, cp(A), lda); } \
};
PL_MIXED(double, float, ds, d, s, dlag2s, slag2d)
PL_MIXED(std::complex<double>, std::complex<float>, zc, z, c, zlag2c, clag2z)

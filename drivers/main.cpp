// Analysis driver: pulls in every CPU translation unit and instantiates the public templates.
#include "heffte.h"
#include "heffte_plan_logic.cpp"
#include "heffte_reshape3d.cpp"
#include "heffte_compute_transform.cpp"
namespace vdrv {
using namespace heffte;
template<typename B, typename I, typename In, typename Out> void use_c2c(fft3d<B, I> &f, fft3d<B, I> const &c, In const *in, Out *out, Out const *cin, In *rout, Out *ws){
    c.forward(in, out); c.forward(in, out, ws); c.forward(2, in, out, ws); c.forward(2, in, out);
    c.backward(cin, rout); c.backward(cin, rout, ws); c.backward(2, cin, rout, ws); c.backward(2, cin, rout);
}
template<typename B, typename I, typename In, typename Out> void use_r2c(fft3d_r2c<B, I> &f, fft3d_r2c<B, I> const &c, In const *in, Out *out, Out const *cin, In *rout, Out *ws){
    c.forward(in, out); c.forward(in, out, ws); c.forward(2, in, out, ws); c.forward(2, in, out);
    c.backward(cin, rout); c.backward(cin, rout, ws); c.backward(2, cin, rout, ws); c.backward(2, cin, rout);
}
template<typename B, typename I> void fft(){
    typedef std::complex<float> c; typedef std::complex<double> z;
    box3d<I> b({0,0,0},{1,1,1});
    fft3d<B, I> f(b, b, MPI_COMM_WORLD);
    fft3d<B, I> fq(nullptr, b, b, MPI_COMM_WORLD);
    float *s = nullptr; double *d = nullptr; c *cc = nullptr; z *zz = nullptr;
    use_c2c<B, I, float, c>(f, f, s, cc, cc, s, cc); use_c2c<B, I, double, z>(f, f, d, zz, zz, d, zz);
    use_c2c<B, I, c, c>(f, f, cc, cc, cc, cc, cc); use_c2c<B, I, z, z>(f, f, zz, zz, zz, zz, zz);
    auto r1 = f.forward(std::vector<float>()); auto r2 = f.forward(std::vector<double>()); auto r3 = f.forward(std::vector<c>()); auto r4 = f.forward(std::vector<z>());
    auto q1 = f.backward(std::vector<c>()); auto q2 = f.backward(std::vector<z>());
    auto p1 = f.backward_real(std::vector<c>()); auto p2 = f.backward_real(std::vector<z>());
    fft3d_r2c<B, I> g(b, b, 0, MPI_COMM_WORLD);
    fft3d_r2c<B, I> gq(nullptr, b, b, 0, MPI_COMM_WORLD);
    use_r2c<B, I, float, c>(g, g, s, cc, cc, s, cc); use_r2c<B, I, double, z>(g, g, d, zz, zz, d, zz);
    auto t1 = g.forward(std::vector<float>()); auto t2 = g.forward(std::vector<double>());
    auto u1 = g.backward(std::vector<c>()); auto u2 = g.backward(std::vector<z>());
    auto m1 = make_fft3d<B, I>(b, b, MPI_COMM_WORLD); auto m2 = make_fft3d_r2c<B, I>(b, b, 0, MPI_COMM_WORLD);
}
template<typename B, typename I> void r2r(){
    box3d<I> b({0,0,0},{1,1,1});
    fft3d<B, I> f(b, b, MPI_COMM_WORLD);
    float *s = nullptr; double *d = nullptr;
    use_c2c<B, I, float, float>(f, f, s, s, s, s, s); use_c2c<B, I, double, double>(f, f, d, d, d, d, d);
    auto r1 = f.forward(std::vector<float>()); auto r2 = f.forward(std::vector<double>());
    auto q1 = f.backward(std::vector<float>()); auto q2 = f.backward(std::vector<double>());
    auto p1 = f.backward_real(std::vector<float>()); auto p2 = f.backward_real(std::vector<double>());
}
}
#ifndef VDRV_INDEX
#define VDRV_INDEX int
#endif
template class heffte::fft3d<heffte::backend::stock, VDRV_INDEX>;
template class heffte::fft3d<heffte::backend::fftw, VDRV_INDEX>;
template class heffte::fft3d<heffte::backend::mkl, VDRV_INDEX>;
template class heffte::fft3d_r2c<heffte::backend::stock, VDRV_INDEX>;
template class heffte::fft3d_r2c<heffte::backend::fftw, VDRV_INDEX>;
template class heffte::fft3d_r2c<heffte::backend::mkl, VDRV_INDEX>;
void vdrv_all(){
    vdrv::fft<heffte::backend::stock, VDRV_INDEX>(); vdrv::fft<heffte::backend::fftw, VDRV_INDEX>(); vdrv::fft<heffte::backend::mkl, VDRV_INDEX>();
    vdrv::r2r<heffte::backend::stock_cos, VDRV_INDEX>(); vdrv::r2r<heffte::backend::stock_sin, VDRV_INDEX>(); vdrv::r2r<heffte::backend::stock_cos1, VDRV_INDEX>();
    vdrv::r2r<heffte::backend::fftw_cos, VDRV_INDEX>(); vdrv::r2r<heffte::backend::fftw_sin, VDRV_INDEX>(); vdrv::r2r<heffte::backend::fftw_cos1, VDRV_INDEX>(); vdrv::r2r<heffte::backend::fftw_sin1, VDRV_INDEX>();
    vdrv::r2r<heffte::backend::mkl_cos, VDRV_INDEX>(); vdrv::r2r<heffte::backend::mkl_sin, VDRV_INDEX>();
}

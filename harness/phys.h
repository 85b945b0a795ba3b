// Reference physics shared by the finite-volume harnesses: limited linear reconstruction and
// the exact face fluxes, written from the scheme's published form, evaluated on the same
// symbolic inputs as the code under test.
#ifndef QKV_PHYS_H
#define QKV_PHYS_H
#include "field.h"

// fill with periodic data: a ghost cell holds its interior image's unknown
inline void wrap(const mesh_t & g, const int * p, int * q)
{
    for (int i = 0; i < g.n(); ++i) {
        int l = g.m.len(i);
        q[i] = g.m.lo[i] + (((p[i] - g.m.lo[i]) % l) + 2 * l) % l;
    }
}
inline double pvar(const mesh_t & g, const int * p, int comps, int c, const char * nm, const double * lo, const double * hi)
{
    int q[5];
    wrap(g, p, q);
    return qkv_real(nm, flat(g.m, q) * comps + c, lo[c], hi[c]);
}
inline void load_periodic(chunk_t & ch, const mesh_t & g, int comps, const char * nm, const double * lo, const double * hi)
{
    box b = ghosted(g, ch.num_ghost_layers());
    int p[5];
    begin(b, p);
    do {
        for (int c = 0; c < comps; ++c) at(ch, g, p, c) = pvar(g, p, comps, c, nm, lo, hi);
    } while (step(b, p));
}
inline void load_uniform(chunk_t & ch, const mesh_t & g, int comps, const char * nm, const double * lo, const double * hi)
{
    box b = ghosted(g, ch.num_ghost_layers());
    int p[5];
    begin(b, p);
    do {
        for (int c = 0; c < comps; ++c) at(ch, g, p, c) = qkv_real(nm, c, lo[c], hi[c]);
    } while (step(b, p));
}
// per-component hints
inline void load_h(chunk_t & ch, const mesh_t & g, int comps, const char * nm, const double * lo, const double * hi)
{
    box b = ghosted(g, ch.num_ghost_layers());
    int p[5], k = 0;
    begin(b, p);
    do {
        for (int c = 0; c < comps; ++c) at(ch, g, p, c) = qkv_real(nm, k * comps + c, lo[c], hi[c]);
        ++k;
    } while (step(b, p));
}
inline double orig_h(const mesh_t & g, const int * p, int comps, int c, const char * nm, const double * lo, const double * hi)
{
    return qkv_real(nm, cell_no(g, p) * comps + c, lo[c], hi[c]);
}
inline void unchanged_h(chunk_t & ch, const mesh_t & g, int comps, const char * nm, const double * lo, const double * hi, const char * label)
{
    box b = ghosted(g, ch.num_ghost_layers());
    int p[5];
    begin(b, p);
    do {
        for (int c = 0; c < comps; ++c) qkv_check_eq(at(ch, g, p, c), orig_h(g, p, comps, c, nm, lo, hi), label);
    } while (step(b, p));
}

static const double EULER_LO[5] = {1, -2, -2, -2, 7}, EULER_HI[5] = {2, 2, 2, 2, 9};
static const double EM_LO[6] = {-2, -2, -2, -2, -2, -2}, EM_HI[6] = {2, 2, 2, 2, 2, 2};

// van Albada limited values on both sides of the face between qc and qp
inline double limiter(double r) { return (r * r + r) / (r * r + 1); }
inline void face(double qn, double qc, double qp, double qpp, double & ql, double & qr)
{
    double rl = (qp - qc) / (qc - qn + 1.e-12);
    double rr = (qp - qc) / (qpp - qp + 1.e-12);
    ql = qc + 0.5 * limiter(rl) * (qc - qn);
    qr = qp + 0.5 * limiter(rr) * (qp - qpp);
}

// HLL flux of the ideal gas across a face normal to dim
inline void euler_flux(int dim, double gamma, const double * ql, const double * qr, double * F, bool assume_ordered)
{
    double Pl = (gamma - 1.) * (ql[4] - 0.5 * (ql[1] * ql[1] + ql[2] * ql[2] + ql[3] * ql[3]) / ql[0]);
    double Pr = (gamma - 1.) * (qr[4] - 0.5 * (qr[1] * qr[1] + qr[2] * qr[2] + qr[3] * qr[3]) / qr[0]);
    double unl = ql[1 + dim] / ql[0], unr = qr[1 + dim] / qr[0];
    double sl = unl - std::sqrt(gamma * Pl / ql[0]);
    double sr = unr + std::sqrt(gamma * Pr / qr[0]);
    if (assume_ordered) qkv_assume(sl < sr);
    double fl[5], fr[5];
    for (int j = 0; j < 5; ++j) {
        fl[j] = ql[j] * unl;
        fr[j] = qr[j] * unr;
    }
    fl[0] = ql[1 + dim];
    fr[0] = qr[1 + dim];
    fl[4] = (ql[4] + Pl) * unl;
    fr[4] = (qr[4] + Pr) * unr;
    fl[1 + dim] += Pl;
    fr[1 + dim] += Pr;
    for (int j = 0; j < 5; ++j) {
        double h = (sr * fl[j] - sl * fr[j] + sl * sr * (qr[j] - ql[j])) / (sr - sl);
        F[j] = sl > 0 ? fl[j] : (sr < 0 ? fr[j] : h);
    }
}

// Rusanov flux of Maxwell's equations across a face normal to dim: curl terms plus |c| upwinding
inline void maxwell_flux(int dim, double c, const double * ql, const double * qr, double * F)
{
    int j = (dim + 1) % 3, k = (dim + 2) % 3;
    double a = std::fabs(c);
    for (int i = 0; i < 6; ++i) F[i] = 0;
    // dE/dt = c^2 curl B ; dB/dt = -curl E
    F[j] = 0.5 * c * c * (qr[3 + k] + ql[3 + k]) - 0.5 * a * (qr[j] - ql[j]);
    F[k] = -0.5 * c * c * (qr[3 + j] + ql[3 + j]) - 0.5 * a * (qr[k] - ql[k]);
    F[3 + j] = -0.5 * (qr[k] + ql[k]) - 0.5 * a * (qr[3 + j] - ql[3 + j]);
    F[3 + k] = 0.5 * (qr[j] + ql[j]) - 0.5 * a * (qr[3 + k] - ql[3 + k]);
}

inline mesh_t fv_mesh(int n, bool large = false) { return std_mesh(n, large); }
inline int wrap1(int x, int l) { return ((x % l) + 2 * l) % l; }
#endif

#include "vspec.h"
#include "contracts.h"

/* markers sit at known fractions (s,t) of known grid cells */
#define MARKS(I0, I1, NJ, X0, Z0, SLO, SHI) \
  int n = P.Nb_part = ND_I("n", 1, 12); \
  int *mi = NDARR_I("mi", n, I0, I1), *mj = NDARR_I("mj", n, 0, (NJ)-1); \
  double *ms = NDARR_R("ms", n, SLO, SHI), *mt = NDARR_R("mt", n, SLO, SHI); \
  P.x = ARR_D("x", n); P.z = ARR_D("z", n); P.phase = NDARR_I("ph", n, -1, 5); \
  for (int k = 0; k < n; k++) { P.x[k] = (X0) + (mi[k] + ms[k])*dx; P.z[k] = (Z0) + (mj[k] + mt[k])*dz; } \
  double *f = ARR_D("f", n)
#define GRID2 NEW_GRID(mesh); NEW_MARKERS(P); NEW_PARAMS(model); int Nx = mesh.Nx = ND_I("Nx", 3, 6), Nz = mesh.Nz = ND_I("Nz", 3, 6), Ncx = Nx-1, Ncz = Nz-1; \
  double dx = mesh.dx = ND_DP("dx", 0, 1), dz = mesh.dz = ND_DP("dz", 0, 1), x0 = ND_D("x0", -1, 1), z0 = ND_D("z0", -1, 1); \
  double *xg = mesh.xg_coord = ARR_D("xg", Nx), *zg = mesh.zg_coord = ARR_D("zg", Nz); \
  for (int k = 0; k < Nx; k++) xg[k] = x0 + k*dx; \
  for (int k = 0; k < Nz; k++) zg[k] = z0 + k*dz; \
  double *xe = ARR_D("xe", Nx+1), *ze = ARR_D("ze", Nz+1); \
  for (int k = 0; k < Nx+1; k++) xe[k] = x0 + (k-0.5)*dx; \
  for (int k = 0; k < Nz+1; k++) ze[k] = z0 + (k-0.5)*dz

/* value at a corner: a node in the air is replaced by the node above/below */
static double corner(double *F, char *t, int c, int other) { return AIR(t[c]) ? F[other] : F[c]; }
static double corners(double *F, char *t, int sw, int se, int nw, int ne, double s, double q) {
  return (1-s)*(1-q)*corner(F, t, sw, nw) + s*(1-q)*corner(F, t, se, ne) + (1-s)*q*corner(F, t, nw, sw) + s*q*corner(F, t, ne, se);
}

void H_vertices(void) {
  GRID2;
  MARKS(0, Ncx-1, Ncz, x0, z0, 0.001, 0.999);
  double *F = NDARR("F", Nx*Nz, -1, 1); char *tag = NDARR_C("tag", Nx*Nz, 28, 32);
  Interp_Grid2P(P, f, &mesh, F, xg, zg, Nx, Nz, tag);
  FORALL(k, 0, n) {
    int c = mi[k] + mj[k]*Nx;
    CHECK("value", EQS(f[k], P.phase[k] == -1 ? 0.0 : corners(F, tag, c, c+1, c+Nx, c+Nx+1, ms[k], mt[k]), 50));
  }
}
#define CENTRES(I0, I1) \
  GRID2; \
  model.periodic_x = ND_IR("per", 0, 1); \
  MARKS(I0, I1, Nz, x0 - 0.5*dx, z0 - 0.5*dz, 0.001, 0.999); \
  double *F = NDARR("F", Ncx*Ncz, -1, 1); char *tag = NDARR_C("tag", Ncx*Ncz, 28, 32); \
  Interp_Grid2P_centroids2(P, f, &mesh, F, xe, ze, Ncx, Ncz, tag, &model); \
  FORALL(k, 0, n) { \
    int w = ext_col(mi[k]-1, Ncx, model.periodic_x), e = ext_col(mi[k], Ncx, model.periodic_x), s = ext_row(mj[k]-1, Ncz), t = ext_row(mj[k], Ncz); \
    CHECK("value", EQS(f[k], P.phase[k] == -1 ? 0.0 : corners(F, tag, w+s*Ncx, e+s*Ncx, w+t*Ncx, e+t*Ncx, ms[k], mt[k]), 50)); \
  }
void H_centres_west(void)  { CENTRES(0, 0) }
void H_centres_inner(void) { CENTRES(1, Ncx-1) }
void H_centres_east(void)  { CENTRES(Ncx, Ncx) }

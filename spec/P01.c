#include "vspec.h"
#include "contracts.h"

/* markers sit at known offsets (s,t), in cell sizes, from their nearest node (mi,mj) */
#define GRID3(CEN) NEW_GRID(mesh); NEW_MARKERS(P); NEW_PARAMS(model); int Nx = mesh.Nx = ND_I("Nx", 3, 5), Nz = mesh.Nz = ND_I("Nz", 3, 5); \
  double dx = mesh.dx = ND_DP("dx", 0, 1), dz = mesh.dz = ND_DP("dz", 0, 1), x0 = ND_D("x0", -1, 1), z0 = ND_D("z0", -1, 1); \
  int X = CEN == 1 ? Nx-1 : CEN == -2 ? Nx+1 : Nx, Z = CEN == 1 ? Nz-1 : CEN == -1 ? Nz+1 : Nz; \
  double *gx = ARR_D("gx", X), *gz = ARR_D("gz", Z); \
  for (int k = 0; k < X; k++) gx[k] = x0 + k*dx; \
  for (int k = 0; k < Z; k++) gz[k] = z0 + k*dz; \
  if (CEN == 1) { mesh.xc_coord = gx; mesh.zc_coord = gz; } \
  if (CEN == 0) { mesh.xg_coord = gx; mesh.zg_coord = gz; } \
  if (CEN == -1) { mesh.xg_coord = gx; mesh.zvx_coord = gz; } \
  if (CEN == -2) { mesh.xvz_coord = gx; mesh.zg_coord = gz; } \
  int np = model.Nb_phases = ND_I("np", 1, 4); \
  int n = P.Nb_part = ND_I("n", 1, 30); \
  int *mi = NDARR_I("mi", n, 0, X-1), *mj = NDARR_I("mj", n, 0, Z-1); \
  double *ms = NDARR_R("ms", n, -0.499, 0.499), *mt = NDARR_R("mt", n, -0.499, 0.499); \
  P.x = ARR_D("x", n); P.z = ARR_D("z", n); P.phase = NDARR_I("ph", n, -1, np-1); \
  for (int k = 0; k < n; k++) { P.x[k] = x0 + (mi[k] + ms[k])*dx; P.z[k] = z0 + (mj[k] + mt[k])*dz; } \
  char *tag = NDARR_C("tag", X*Z, 28, 32)


#define EXPECT1(VAL) \
    double W = 0.0, B = 0.0; \
    for (int k = 0; k < n; k++) if (P.phase[k] != -1 && mi[k] == i && mj[k] == j) { \
      double w = (1 - 2*fabs(ms[k]))*(1 - 2*fabs(mt[k])); \
      W += w; B += (VAL)*w; \
    } \
    int c = i + j*X; \
    NATIVE(if (fabs(W) < 1e-6) continue;)
#define EMPTY (fabs(W) < 1e-30 || AIR(tag[c]))

#define ONECELL(CEN) GRID3(CEN); model.periodic_x = 0; \
  double *val = NDARR("val", n, 0.1, 1), *F = NDARR("F", X*Z, -1, 1)
#define MEAN(CEN) ONECELL(CEN); \
  P2Mastah(&model, P, val, &mesh, F, tag, 1, 0, 0, CEN, 1); \
  FORALL(j, 0, Z) FORALL(i, 0, X) { EXPECT1(val[k]) CHECK("mean", EQS(F[c], EMPTY ? IN_D("F", c) : B/W, 50)); }
void H_mean_cells(void)    { MEAN(1) }
void H_mean_vertices(void) { MEAN(0) }
void H_mean_vx(void)       { MEAN(-1) }
void H_mean_vz(void)       { MEAN(-2) }
void H_mean_material(void) {
  ONECELL(1);
  double *prop = NDARR("prop", np, 0.1, 1);
  P2Mastah(&model, P, prop, &mesh, F, tag, 0, 0, 0, 1, 1);
  FORALL(j, 0, Z) FORALL(i, 0, X) { EXPECT1(prop[P.phase[k]]) CHECK("mean", EQS(F[c], EMPTY ? IN_D("F", c) : B/W, 50)); }
}
void H_mean_harmonic(void) {
  ONECELL(1);
  P2Mastah(&model, P, val, &mesh, F, tag, 1, 1, 0, 1, 1);
  FORALL(j, 0, Z) FORALL(i, 0, X) { EXPECT1(1/val[k]) CHECK("mean", EQS(F[c], EMPTY ? IN_D("F", c) : 1/(B/W), 50)); }
}
void H_mean_geometric(void) {
  ONECELL(1);
  P2Mastah(&model, P, val, &mesh, F, tag, 1, 2, 0, 1, 1);
  FORALL(j, 0, Z) FORALL(i, 0, X) { EXPECT1(log(val[k])) CHECK("mean", EQS(F[c], EMPTY ? IN_D("F", c) : exp(B/W), 50)); }
}
void H_fractions(void) {
  ONECELL(1);
  mesh.phase_perc_n = NDARR2("perc", np, X*Z, -1, 1);
  P2Mastah(&model, P, val, &mesh, F, tag, 0, 0, 1, 1, 1);
  FORALL(p, 0, np) FORALL(j, 0, Z) FORALL(i, 0, X) {
    EXPECT1(P.phase[k] == p ? 1.0 : 0.0)
    CHECK("fraction", EQS(mesh.phase_perc_n[p][c], EMPTY ? B : B/W, 50));
    CHECK("field", F[c] == IN_D("F", c));
  }
}

/* vertices of a domain periodic in x: both ends of a line get their average */
void H_mean_periodic(void) {
  GRID3(0); model.periodic_x = 1;
  double *val = NDARR("val", n, 0.1, 1), *F = NDARR("F", X*Z, -1, 1);
  P2Mastah(&model, P, val, &mesh, F, tag, 1, 0, 0, 0, 1);
  FORALL(j, 0, Z) FORALL(i, 1, X-1) { EXPECT1(val[k]) CHECK("mean", EQS(F[c], EMPTY ? IN_D("F", c) : B/W, 50)); }
  FORALL(j, 0, Z) {
    double e, w;
    { int i = 0;   EXPECT1(val[k]) w = EMPTY ? IN_D("F", c) : B/W; }
    { int i = X-1; EXPECT1(val[k]) e = EMPTY ? IN_D("F", c) : B/W; }
    CHECK("west", EQS(F[j*X], 0.5*(e + w), 50));
    CHECK("east", EQS(F[j*X+X-1], 0.5*(e + w), 50));
  }
}

/* wide averaging: a marker also contributes to the 8 nodes around its nearest one, with the bilinear weight
   of a window 3 cells wide; columns wrap in a domain periodic in x */
#define WIDE1(COL, DI, DJ) \
    for (int k = 0; k < n; k++) if (P.phase[k] != -1 && mj[k] == j-(DJ) && mi[k] == (COL)) { \
      double w = (1 - fabs((DI) - ms[k])/1.5)*(1 - fabs((DJ) - mt[k])/1.5); W += w; B += val[k]*w; }
/* w, i, e: columns whose markers reach column i from the left, from itself and from the right */
#define EXPECT9(w, e) \
    double W = 0.0, B = 0.0; \
    WIDE1(i,0,0) WIDE1(i,0,1) WIDE1(i,0,-1) WIDE1(w,1,0) WIDE1(e,-1,0) \
    WIDE1(e,-1,-1) WIDE1(e,-1,1) WIDE1(w,1,1) WIDE1(w,1,-1) \
    int c = i + j*X; \
    NATIVE(if (fabs(W) < 1e-6) continue;)
#define WIDE_IS CHECK("mean", EQS(F[c], EMPTY ? IN_D("F", c) : B/W, 50));
void H_wide_cells(void) {
  ONECELL(1);
  P2Mastah(&model, P, val, &mesh, F, tag, 1, 0, 0, 1, 9);
  FORALL(j, 0, Z) FORALL(i, 0, X) { EXPECT9(i-1, i+1) WIDE_IS }
}
#define WIDE_PER GRID3(1); model.periodic_x = 1; \
  double *val = NDARR("val", n, 0.1, 1), *F = NDARR("F", X*Z, -1, 1); \
  ASSUME(X >= 3); \
  P2Mastah(&model, P, val, &mesh, F, tag, 1, 0, 0, 1, 9);
void H_wide_periodic_inner(void) { WIDE_PER FORALL(j, 0, Z) FORALL(i, 1, X-1) { EXPECT9(i-1, i+1) WIDE_IS } }
void H_wide_periodic_west(void)  { WIDE_PER FORALL(j, 0, Z) { int i = 0;   EXPECT9(X-1, 1) WIDE_IS } }
void H_wide_periodic_east(void)  { WIDE_PER FORALL(j, 0, Z) { int i = X-1; EXPECT9(X-2, 0) WIDE_IS } }

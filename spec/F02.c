#include "vspec.h"
#include "contracts.h"

/* air and rock tags of the grid below a piecewise-linear surface */
#define AIRGRID NEW_GRID(mesh); NEW_SURFACE(topo); NEW_PARAMS(model); NEW_SCALE(sc); sc.T = ND_DP("sT", 0.1, 2); sc.S = 1; \
  int Nx = mesh.Nx = ND_I("Nx", 3, 6), C = Nx-1, Nz = mesh.Nz = ND_I("Nz", 3, 6), D = Nz-1, X = Nx+1; \
  double dz = ND_DP("dz", 0.1, 1), z0 = ND_D("z0", -1, 0); \
  mesh.xvz_coord = NDARR("xvz", X, -1, 1); \
  double *zv = mesh.zvx_coord = ARR_D("zvx", Nz+1), *zg = mesh.zg_coord = ARR_D("zg", Nz); \
  for (int k = 0; k < Nz+1; k++) zv[k] = z0 + (k-0.5)*dz; \
  for (int k = 0; k < Nz; k++) zg[k] = z0 + k*dz; \
  topo.a = NDARR("a", C, -1, 1); topo.b = NDARR("b", C, -1, 3); topo.height = NDARR("h", Nx, -1, 3); \
  char *tp = mesh.BCp.type = ARR_C("tp", C*D), *tt = mesh.BCt.type = ARR_C("tt", C*D), *te = mesh.BCp_exp.type = ARR_C("te", (C+2)*(D+2)); \
  char *tu = mesh.BCu.type = ARR_C("tu", Nx*(Nz+1)), *tv = mesh.BCv.type = ARR_C("tv", X*Nz), *tg = mesh.BCg.type = ARR_C("tg", Nx*Nz); \
  mesh.BCp.val = NDARR("vp", C*D, -1, 1); mesh.BCt.val = NDARR("vt", C*D, -1, 1); mesh.BCu.val = NDARR("vu", Nx*(Nz+1), -1, 1); \
  mesh.BCv.val = NDARR("vv", X*Nz, -1, 1); mesh.BCg.val = NDARR("vg", Nx*Nz, -1, 1); mesh.T = NDARR("T", C*D, -1, 1); \
  OPTION("name", 12); CellFlagging(&mesh, model, topo, sc)

/* (i,j): cell of the grid extended by one cell on each side */
static int below(grid *m, surface *s, int i, int j) {
  int c = i < 1 ? 0 : i > m->Nx-1 ? m->Nx-2 : i-1;
  return m->zvx_coord[j] <= s->b[c] + s->a[c]*m->xvz_coord[i];
}
/* 1 rock, 2 first cell above rock, 0 air */
static int level(grid *m, surface *s, int i, int j) {
  int r = below(m, s, i, j);
  return j > 0 && j < m->Nz && r != below(m, s, i, j-1) ? 2 : r;
}
static int kind(grid *m, surface *s, int i, int j) {
  int t = level(m, s, i, j), w = level(m, s, i-1, j), e = level(m, s, i+1, j);
  return t == 1 && w == 2 && e == 2 ? 2 : t == 0 && (w == 1 || e == 1) ? 2 : t;
}
void H_cells(void) {
  AIRGRID;
  FORALL(j, 0, D) FORALL(i, 0, C) {
    int c = i + j*C, k = kind(&mesh, &topo, i+1, j+1);
    CHECK("pressure",    tp[c] == (k == 1 ? -1 : k == 2 ? 31 : 30));
    CHECK("temperature", tt[c] == (k == 1 ? -1 : 30));
    CHECK("value",       EQ(mesh.T[c], k == 1 ? IN_D("T", c) : zeroC/sc.T));
    CHECK("extended",    te[i+1 + (j+1)*(C+2)] == (k == 0 ? 30 : -1));
  }
}
void H_u(void) {
  AIRGRID;
  FORALL(j, 0, D) FORALL(i, 1, Nx-1)
    CHECK("inner", tu[i + (j+1)*Nx] == (tp[i + j*C] == -1 || tp[i-1 + j*C] == -1 ? -1 : 30));
  FORALL(j, 0, Nz+1) {
    CHECK("west", tu[j*Nx] == tu[j*Nx + 1]);
    CHECK("east", tu[Nx-1 + j*Nx] == tu[Nx-2 + j*Nx]);
  }
}
void H_v(void) {
  AIRGRID;
  FORALL(j, 1, Nz-1) FORALL(i, 0, C)
    CHECK("inner", tv[i+1 + j*X] == (tp[i + j*C] == -1 || tp[i + (j-1)*C] == -1 ? -1 : 30));
  FORALL(j, 0, Nz) {
    CHECK("west", tv[j*X] == tv[j*X + 1]);
    CHECK("east", tv[Nx + j*X] == tv[Nx-1 + j*X]);
  }
}
void H_vertices(void) {
  AIRGRID;
  FORALL(j, 1, Nz-1) FORALL(i, 1, Nx-1) {
    int c = i + j*C, rock = tp[c] == -1 && tp[c-1] == -1 && tp[c-C] == -1 && tp[c-1-C] == -1;
    CHECK("inside", !rock || tg[i + j*Nx] == -1);
    CHECK("above",  rock || zg[j] <= topo.height[i] || tg[i + j*Nx] == 30);
  }
  FORALL(j, 1, Nz-1) {
    int w = j*C, e = C-1 + j*C, rw = tp[w] == -1 && tp[w-C] == -1, re = tp[e] == -1 && tp[e-C] == -1;
    CHECK("west-inside", !rw || tg[j*Nx] == -1);
    CHECK("west-above",  rw || zg[j] <= topo.height[0] || tg[j*Nx] == 30);
    CHECK("east-inside", !re || tg[Nx-1 + j*Nx] == -1);
    CHECK("east-above",  re || zg[j] <= topo.height[Nx-1] || tg[Nx-1 + j*Nx] == 30);
  }
}
void H_values(void) {
  AIRGRID;
  FORALL(c, 0, C*D) CHECK("cells", mesh.BCp.val[c] == 0.0 && mesh.BCt.val[c] == 0.0);
  FORALL(c, 0, Nx*(Nz+1)) CHECK("u", mesh.BCu.val[c] == 0.0);
  FORALL(c, 0, X*Nz) CHECK("v", mesh.BCv.val[c] == 0.0);
  FORALL(c, 0, Nx*Nz) CHECK("g", mesh.BCg.val[c] == 0.0);
}

#include "vspec.h"
#include "stokes.h"

/* ---- ghost and periodic nodes follow the boundary condition ---- */
#define VELO \
  mesh.BCu.val = NDARR("vu", Nx*(Nz+1), -1, 1); mesh.BCv.val = NDARR("vv", (Nx+1)*Nz, -1, 1); \
  double *u = mesh.u_in = NDARR("u", Nx*(Nz+1), -1, 1), *v = mesh.v_in = NDARR("v", (Nx+1)*Nz, -1, 1)

void H_ghosts(void) {
  MESH_S; VELO;
  ApplyBC(&mesh, &model);
  FORALL(k, 0, Nx-1) {
    int s = k, n = k + Nz*Nx;
    CHECK("u-south", EQ(u[s], tu[s] == 13 ? IN_D("u", s+Nx) : tu[s] == 11 ? IN_D("vu", s) - IN_D("u", s+Nx) : IN_D("u", s)));
    CHECK("u-north", EQ(u[n], tu[n] == 13 ? IN_D("u", n-Nx) : tu[n] == 11 ? IN_D("vu", n) - IN_D("u", n-Nx) : IN_D("u", n)));
  }
  FORALL(l, 1, Nz) FORALL(k, 0, Nx-1) CHECK("u-inner", u[k + l*Nx] == IN_D("u", k + l*Nx));
  FORALL(l, 0, Nz+1) {
    int e = Nx-1 + l*Nx;
    CHECK("u-periodic", IMPLIES(tu[e] == -12, u[e] == u[l*Nx]));
    CHECK("u-east", IMPLIES(tu[e] != -12 && l > 0 && l < Nz, u[e] == IN_D("u", e)));
  }
  FORALL(l, 0, Nz) {
    int w = l*(Nx+1), e = w + Nx;
    CHECK("v-west", EQ(v[w], tv[w] == 13 ? IN_D("v", w+1) : tv[w] == 11 ? IN_D("vv", w) - IN_D("v", w+1) : tv[w] == -12 ? IN_D("v", e-1) : IN_D("v", w)));
    CHECK("v-east", EQ(v[e], tv[e] == 13 ? IN_D("v", e-1) : tv[e] == 11 ? IN_D("vv", e) - IN_D("v", e-1) : tv[e] == -12 ? IN_D("v", w+1) : IN_D("v", e)));
  }
  FORALL(l, 0, Nz) FORALL(k, 1, Nx) CHECK("v-inner", v[k + l*(Nx+1)] == IN_D("v", k + l*(Nx+1)));
}

/* ---- a solution vector updates exactly the active nodes ---- */
void H_extract(void) {
  MESH_S; VELO;
  int neq = ND_I("neq", 1, 20);
  A.eqn_u = NDARR_I("eu", Nx*(Nz+1), 0, neq-1); A.eqn_v = NDARR_I("ev", (Nx+1)*Nz, 0, neq-1); A.eqn_p = NDARR_I("ep", Ncx*Ncz, 0, neq-1);
  double *p = mesh.p_in = NDARR("p", Ncx*Ncz, -1, 1), *dx = NDARR("dx", neq, -1, 1), al = ND_D("alpha", 0, 1);
  ExtractSolutions2(&A, &mesh, &model, dx, al);
  FORALL(c, 0, Ncx*Ncz) CHECK("p", EQ(p[c], IN_D("p", c) + (tp[c] == -1 ? al*dx[IN_I("ep", c)] : 0.0)));
  FORALL(l, 1, Nz) FORALL(k, 0, Nx-1) { int c = k + l*Nx; CHECK("u", EQ(u[c], IN_D("u", c) + (actu(tu[c]) ? al*dx[IN_I("eu", c)] : 0.0))); }
  FORALL(l, 0, Nz) FORALL(k, 1, Nx) { int c = k + l*(Nx+1); CHECK("v", EQ(v[c], IN_D("v", c) + (actv(tv[c]) ? al*dx[IN_I("ev", c)] : 0.0))); }
}

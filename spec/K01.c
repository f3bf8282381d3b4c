#include "vspec.h"
#define USE_CONTRACT_C2V
#define USE_CONTRACT_INDICES
#include "contracts.h"

void H_strain(void) {
  NEW_GRID(mesh); NEW_PARAMS(model); NEW_SCALE(scaling);
  int Nx = ND_I("Nx", 2, 6), Nz = ND_I("Nz", 2, 6), Ncx = Nx-1, Ncz = Nz-1;
  mesh.Nx = Nx; mesh.Nz = Nz;
  MESH_INDICES(mesh, Nx, Nz);
  double dx = mesh.dx = ND_DP("dx", 0.1, 1), dz = mesh.dz = ND_DP("dz", 0.1, 1);
  model.out_of_plane = ND_IR("oop", 0, 1);
  model.compressible = ND_IR("comp", 0, 1);
  model.periodic_x = ND_IR("per", 0, 1);
  double *u = mesh.u_in = NDARR("u", Nx*(Nz+1), -1, 1);
  double *v = mesh.v_in = NDARR("v", (Nx+1)*Nz, -1, 1);
  mesh.BCp.type = NDARR_C("tp", Ncx*Ncz, -1, 31);
  mesh.BCg.type = NDARR_C("tg", Nx*Nz, -1, 31);
  mesh.div_u = ARR_D("div", Ncx*Ncz); mesh.exxd = ARR_D("exx", Ncx*Ncz); mesh.ezzd = ARR_D("ezz", Ncx*Ncz);
  mesh.exz = ARR_D("exz", Nx*Nz); mesh.wxz = ARR_D("wxz", Nx*Nz);
  mesh.exz_n = ARR_D("exzn", Ncx*Ncz); mesh.wxz_n = ARR_D("wxzn", Ncx*Ncz);
  mesh.exxd_s = ARR_D("exxs", Nx*Nz); mesh.ezzd_s = ARR_D("ezzs", Nx*Nz); mesh.div_u_s = ARR_D("divs", Nx*Nz);
  StrainRateComponents(&mesh, scaling, &model);
  FORALL(l, 0, Ncz) FORALL(k, 0, Ncx) {
    int c = k + l*Ncx, t = IN_I("tp", c);
    double exx = (u[k+1 + (l+1)*Nx] - u[k + (l+1)*Nx])/dx;
    double ezz = (v[k+1 + (l+1)*(Nx+1)] - v[k+1 + l*(Nx+1)])/dz;
    double div = exx + ezz + (model.out_of_plane == 1 ? 0.5*(exx+ezz) : 0.0);
    double cc = model.compressible == 1 ? 1.0/3.0 : 0.0;
    if (t != 30 && t != 31) {
      CHECK("div", EQS(mesh.div_u[c], div, 10));
      CHECK("exx", EQS(mesh.exxd[c], exx - cc*div, 10));
      CHECK("ezz", EQS(mesh.ezzd[c], ezz - cc*div, 10));
    } else CHECK("air", mesh.div_u[c] == 0 && mesh.exxd[c] == 0 && mesh.ezzd[c] == 0);
  }
  FORALL(l, 0, Nz) FORALL(k, 0, Nx) {
    int c = k + l*Nx;
    double uz = (u[k + (l+1)*Nx] - u[k + l*Nx])/dz, vx = (v[k+1 + l*(Nx+1)] - v[k + l*(Nx+1)])/dx;
    if (IN_I("tg", c) != 30) { CHECK("exz", EQS(mesh.exz[c], 0.5*(uz+vx), 10)); CHECK("wxz", EQS(mesh.wxz[c], 0.5*(vx-uz), 10)); }
    else CHECK("exz-air", mesh.exz[c] == 0);
  }
  FORALL(l, 0, Ncz) FORALL(k, 0, Ncx) {
    int c = k + l*Ncx, a = k + l*Nx, b = a + 1, d = a + Nx, e = d + 1;
    char *tg = mesh.BCg.type;
    double *g = mesh.exz, *w = mesh.wxz;
    int t = IN_I("tp", c);
    CHECK("exz-cell", EQS(mesh.exz_n[c], AIR(t) ? 0.0 : 0.25*(g[a] + g[b] + g[d] + g[e]), 10));
    CHECK("wxz-cell", EQS(mesh.wxz_n[c], AIR(t) ? 0.0 : 0.25*((tg[a]==30?0:w[a]) + (tg[b]==30?0:w[b]) + (tg[d]==30?0:w[d]) + (tg[e]==30?0:w[e])), 10));
  }
  FORALL(l, 0, Nz) FORALL(k, 0, Nx) {
    int c = k + l*Nx, per = model.periodic_x;
    CHECK("exx-vertex", EQS(mesh.exxd_s[c], IN_I("tg", c) == 30 ? 0.0 : c2v(mesh.exxd, mesh.BCp.type, k, l, Nx, Nz, per), 10));
    CHECK("ezz-vertex", EQS(mesh.ezzd_s[c], IN_I("tg", c) == 30 ? 0.0 : c2v(mesh.ezzd, mesh.BCp.type, k, l, Nx, Nz, per), 10));
    CHECK("div-vertex", EQS(mesh.div_u_s[c], IN_I("tg", c) == 30 ? 0.0 : c2v(mesh.div_u, mesh.BCp.type, k, l, Nx, Nz, per), 10));
  }
}

void H_vel(void) {
  NEW_SCALE(scaling);
  int Nx = ND_I("Nx", 2, 6), Nz = ND_I("Nz", 2, 6), Ncx = Nx-1, Ncz = Nz-1;
  double *u = NDARR("u", Nx*(Nz+1), -1, 1), *v = NDARR("v", (Nx+1)*Nz, -1, 1);
  double *uc = ARR_D("uc", Ncx*Ncz), *vc = ARR_D("vc", Ncx*Ncz), *un = ARR_D("un", Nx*Nz), *vn = ARR_D("vn", Nx*Nz);
  VelocitiesOnCenters(u, v, uc, vc, Nx, Nz, scaling);
  VelocitiesOnVertices(u, v, un, vn, Nx, Nz, scaling);
  FORALL(l, 0, Ncz) FORALL(k, 0, Ncx) {
    CHECK("u-center", EQ(uc[k + l*Ncx], 0.5*(u[k + (l+1)*Nx] + u[k+1 + (l+1)*Nx])));
    CHECK("v-center", EQ(vc[k + l*Ncx], 0.5*(v[k+1 + l*(Nx+1)] + v[k+1 + (l+1)*(Nx+1)])));
  }
  FORALL(l, 0, Nz) FORALL(k, 0, Nx) {
    CHECK("u-vertex", EQ(un[k + l*Nx], 0.5*(u[k + l*Nx] + u[k + (l+1)*Nx])));
    CHECK("v-vertex", EQ(vn[k + l*Nx], 0.5*(v[k + l*(Nx+1)] + v[k+1 + l*(Nx+1)])));
  }
}

#include "vspec.h"

/* ---- GridIndices: flattened index <-> (k,l) on the four node families ---- */
void H_indices(void) {
  NEW_GRID(mesh);
  int Nx = ND_I("Nx", 2, 7), Nz = ND_I("Nz", 2, 7);
  mesh.Nx = Nx; mesh.Nz = Nz;
  mesh.kn = ARR_I("kn", Nx * Nz);        mesh.ln = ARR_I("ln", Nx * Nz);
  mesh.kvx = ARR_I("kvx", Nx * (Nz+1));  mesh.lvx = ARR_I("lvx", Nx * (Nz+1));
  mesh.kvz = ARR_I("kvz", (Nx+1) * Nz);  mesh.lvz = ARR_I("lvz", (Nx+1) * Nz);
  mesh.kp = ARR_I("kp", (Nx-1) * (Nz-1)); mesh.lp = ARR_I("lp", (Nx-1) * (Nz-1));
  GridIndices(&mesh);
  FORALL(l, 0, Nz) FORALL(k, 0, Nx) {
    CHECK("vertex-k", mesh.kn[k + l*Nx] == k);
    CHECK("vertex-l", mesh.ln[k + l*Nx] == l);
  }
  FORALL(l, 0, Nz+1) FORALL(k, 0, Nx) {
    CHECK("vx-k", mesh.kvx[k + l*Nx] == k);
    CHECK("vx-l", mesh.lvx[k + l*Nx] == l);
  }
  FORALL(l, 0, Nz) FORALL(k, 0, Nx+1) {
    CHECK("vz-k", mesh.kvz[k + l*(Nx+1)] == k);
    CHECK("vz-l", mesh.lvz[k + l*(Nx+1)] == l);
  }
  FORALL(l, 0, Nz-1) FORALL(k, 0, Nx-1) {
    CHECK("cell-k", mesh.kp[k + l*(Nx-1)] == k);
    CHECK("cell-l", mesh.lp[k + l*(Nx-1)] == l);
  }
}

void H_coords(void) {
  NEW_GRID(mesh); NEW_PARAMS(model);
  int nx = ND_I("Nx", 2, 9), nz = ND_I("Nz", 2, 9);
  mesh.xg_coord = ARR_D("xg", nx);  mesh.zg_coord = ARR_D("zg", nz);
  mesh.xg_coord0 = ARR_D("xg0", nx);  mesh.zg_coord0 = ARR_D("zg0", nz);
  mesh.xc_coord = ARR_D("xc", nx-1);  mesh.zc_coord = ARR_D("zc", nz-1);
  mesh.xvz_coord = ARR_D("xvz", nx+1);  mesh.zvx_coord = ARR_D("zvx", nz+1);
  mesh.xg_coord_ext = ARR_D("xge", nx+2);  mesh.zg_coord_ext = ARR_D("zge", nz+2);
  model.xmin = ND_D("xmin", -2, 0); model.xmax = ND_D("xmax", 1, 2);
  model.zmin = ND_D("zmin", -2, 0); model.zmax = ND_D("zmax", 1, 2);
  model.xmin0 = ND_D("xmin0", -2, 0); model.xmax0 = ND_D("xmax0", 1, 2);
  model.zmin0 = ND_D("zmin0", -2, 0); model.zmax0 = ND_D("zmax0", 1, 2);
  SetGridCoordinates(&mesh, &model, nx, nz);
  double x0 = IN_S("xmin"), x1 = IN_S("xmax"), z0 = IN_S("zmin"), z1 = IN_S("zmax");
  double dx = (x1 - x0)/(nx-1), dz = (z1 - z0)/(nz-1);
  CHECK("dx", EQ(mesh.dx, dx) && EQ(model.dx, dx));
  CHECK("dz", EQ(mesh.dz, dz) && EQ(model.dz, dz));
  CHECK("last-x", EQ(mesh.xg_coord[nx-1], x1));
  CHECK("last-z", EQ(mesh.zg_coord[nz-1], z1));
  FORALL(k, 0, nx) {
    CHECK("xg", EQS(mesh.xg_coord[k], x0 + k*dx, 1));
    CHECK("xg0", EQS(mesh.xg_coord0[k], IN_S("xmin0") + k*(IN_S("xmax0")-IN_S("xmin0"))/(nx-1), 1));
  }
  FORALL(k, 0, nz) {
    CHECK("zg", EQS(mesh.zg_coord[k], z0 + k*dz, 1));
    CHECK("zg0", EQS(mesh.zg_coord0[k], IN_S("zmin0") + k*(IN_S("zmax0")-IN_S("zmin0"))/(nz-1), 1));
  }
  FORALL(k, 0, nx-1) CHECK("xc", EQS(mesh.xc_coord[k], x0 + (k+0.5)*dx, 1));
  FORALL(k, 0, nz-1) CHECK("zc", EQS(mesh.zc_coord[k], z0 + (k+0.5)*dz, 1));
  FORALL(k, 0, nx+1) CHECK("xvz", EQS(mesh.xvz_coord[k], x0 + (k-0.5)*dx, 1));
  FORALL(k, 0, nz+1) CHECK("zvx", EQS(mesh.zvx_coord[k], z0 + (k-0.5)*dz, 1));
  FORALL(k, 0, nx+2) CHECK("xge", EQS(mesh.xg_coord_ext[k], x0 + (k-1)*dx, 1));
  FORALL(k, 0, nz+2) CHECK("zge", EQS(mesh.zg_coord_ext[k], z0 + (k-1)*dz, 1));
}

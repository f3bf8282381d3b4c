#include "vspec.h"

/* ---- the kinematic templates, every position ---- */
static int is_top(int p)    { return p == N || p == NE || p == NW; }
static int is_bottom(int p) { return p == S || p == SE || p == SW; }

void H_templates(void) {
  MdoodzInput in;
  NATIVE(memset(&in, 0, sizeof in);)
  int p = ND_IR("pos", 0, 9), style = ND_IR("style", 0, 1);
  Coordinates c;
  c.x = ND_D("x", -2, 2); c.z = ND_D("z", -2, 2);
  double e = in.model.bkg_strain_rate = ND_D("eps", -2, 2);
  double z0 = in.model.zmin = ND_D("zmin", -2, 0), z1 = in.model.zmax = ND_D("zmax", 0, 2);
  in.model.shear_style = style;
  SetBC bx = SetPureOrSimpleShearBCVx(&in, p, c);
  SetBC bz = SetPureOrSimpleShearBCVz(&in, p, c);
  int inner = (p == INTERNAL || p == free_surface);
  if (inner) {
    CHECK("inner-free", bx.type == -1 && bz.type == -1 && bx.value == 0 && bz.value == 0);
  } else if (style == 0) {
    if (p == W || p == E) {
      CHECK("ps-vx-normal", bx.type == 0 && EQ(bx.value, -c.x*e));
      CHECK("ps-vz-slip", bz.type == 13 && bz.value == 0);
    } else if (p == N || p == S) {
      CHECK("ps-vz-normal", bz.type == 0 && EQ(bz.value, c.z*e));
      CHECK("ps-vx-slip", bx.type == 13 && bx.value == 0);
    } else {
      CHECK("ps-corner", bx.type == 13 && bx.value == 0 && bz.type == 13 && bz.value == 0);
    }
  } else {
    if (is_top(p))    CHECK("ss-vx-top", bx.type == 11 && EQ(bx.value,  e*(z1-z0)));
    if (is_bottom(p)) CHECK("ss-vx-bot", bx.type == 11 && EQ(bx.value, -e*(z1-z0)));
    if (p == W) CHECK("ss-vx-w", bx.type == -2 && bx.value == 0);
    if (p == E) CHECK("ss-vx-e", bx.type == -12 && bx.value == 0);
    if (p == N || p == S) CHECK("ss-vz-ns", bz.type == 0 && bz.value == 0);
    else CHECK("ss-vz-per", bz.type == -12 && bz.value == 0);
  }
}

/* ---- SetBCs: which node gets which tag, through the function pointers of the setup ---- */
static SetBC bct(MdoodzInput *in, POSITION p, Coordinates c, double T) {
  SetBC b;
  b.type  = p == W ? 2 : p == E ? 3 : p == S ? 4 : p == N ? 5 : p == free_surface ? 6 : 7;
  b.value = p + 10.0*c.x + 100.0*c.z + 1000.0*T + 0.5*c.k + 0.25*c.l;
  return b;
}
static char bcp(MdoodzInput *in, POSITION p) { return 40 + p; }

#define SETUP_BC \
  NEW_GRID(mesh); surface topo; \
  NATIVE(memset(&topo, 0, sizeof topo);) \
  MdoodzInput in; NATIVE(memset(&in, 0, sizeof in);) \
  SetBCs_ff f; NATIVE(memset(&f, 0, sizeof f);) \
  int Nx = ND_I("Nx", 3, 7), Nz = ND_I("Nz", 3, 7), Ncx = Nx-1, Ncz = Nz-1; \
  mesh.Nx = Nx; mesh.Nz = Nz; mesh.dx = ND_DP("dx", 0.1, 1); mesh.dz = ND_DP("dz", 0.1, 1); \
  double *xg = mesh.xg_coord = NDARR("xg", Nx, -1, 1), *zg = mesh.zg_coord = NDARR("zg", Nz, -1, 1); \
  double *xc = mesh.xc_coord = NDARR("xc", Ncx, -1, 1), *zc = mesh.zc_coord = NDARR("zc", Ncz, -1, 1); \
  double *xvz = mesh.xvz_coord = NDARR("xvz", Nx+1, -1, 1), *zvx = mesh.zvx_coord = NDARR("zvx", Nz+1, -1, 1); \
  mesh.BCu.type = NDARR_C("tu", Nx*(Nz+1), -12, 31); mesh.BCu.val = NDARR("vu", Nx*(Nz+1), -1, 1); \
  mesh.BCv.type = NDARR_C("tv", (Nx+1)*Nz, -12, 31); mesh.BCv.val = NDARR("vv", (Nx+1)*Nz, -1, 1); \
  mesh.BCp.type = NDARR_C("tp", Ncx*Ncz, -1, 31); mesh.BCp.val = NDARR("vp", Ncx*Ncz, -1, 1); \
  mesh.BCt.type = NDARR_C("tt", Ncx*Ncz, -1, 31); mesh.BCc.type = NDARR_C("tc", Ncx*Ncz, -1, 31); \
  mesh.BCT_exp.type = NDARR_C("tte", (Ncx+2)*(Ncz+2), -1, 31); mesh.BCT_exp.val = NDARR("vte", (Ncx+2)*(Ncz+2), -1, 1); \
  mesh.BCC_exp.type = NDARR_C("tce", (Ncx+2)*(Ncz+2), -1, 31); mesh.BCC_exp.val = NDARR("vce", (Ncx+2)*(Ncz+2), -1, 1); \
  mesh.T = NDARR("T", Ncx*Ncz, 0, 1); mesh.p_in = NDARR("P", Ncx*Ncz, 0, 1); \
  double e = in.model.bkg_strain_rate = ND_D("eps", -2, 2); \
  double z0 = in.model.zmin = ND_D("zmin", -2, 0), z1 = in.model.zmax = ND_D("zmax", 0, 2); \
  in.model.balance_boundaries = 0; in.model.fix_temperature = 0; in.flux = NULL; \
  f.SetBCPType = bcp; f.SetBCT = bct; f.SetBCC = bct

void H_setbcs_pure(void) {
  SETUP_BC;
  in.model.shear_style = 0;
  f.SetBCVx = SetPureOrSimpleShearBCVx; f.SetBCVz = SetPureOrSimpleShearBCVz;
  SetBCs(f, &in, &mesh, &topo);
  FORALL(l, 0, Nz+1) FORALL(k, 0, Nx) {
    int c = k + l*Nx;
    if (IN_I("tu", c) != 30) {
      if (l == 0 || l == Nz) CHECK("vx-topbot", mesh.BCu.type[c] == 13 && mesh.BCu.val[c] == 0);
      else if (k == 0 || k == Nx-1) CHECK("vx-side", mesh.BCu.type[c] == 0 && EQ(mesh.BCu.val[c], -e*xg[k]));
      else CHECK("vx-in", mesh.BCu.type[c] == -1 && mesh.BCu.val[c] == 0);
    } else CHECK("vx-air", mesh.BCu.type[c] == 30 && mesh.BCu.val[c] == IN_D("vu", c));
  }
  FORALL(l, 0, Nz) FORALL(k, 0, Nx+1) {
    int c = k + l*(Nx+1);
    if (IN_I("tv", c) != 30) {
      if (k == 0 || k == Nx) CHECK("vz-side", mesh.BCv.type[c] == 13 && mesh.BCv.val[c] == 0);
      else if (l == 0 || l == Nz-1) CHECK("vz-topbot", mesh.BCv.type[c] == 0 && EQ(mesh.BCv.val[c], e*zg[l]));
      else CHECK("vz-in", mesh.BCv.type[c] == -1 && mesh.BCv.val[c] == 0);
    } else CHECK("vz-air", mesh.BCv.type[c] == 30 && mesh.BCv.val[c] == IN_D("vv", c));
  }
}

void H_setbcs_simple(void) {
  SETUP_BC;
  in.model.shear_style = 1;
  f.SetBCVx = SetPureOrSimpleShearBCVx; f.SetBCVz = SetPureOrSimpleShearBCVz;
  SetBCs(f, &in, &mesh, &topo);
  FORALL(l, 0, Nz+1) FORALL(k, 0, Nx) {
    int c = k + l*Nx;
    if (IN_I("tu", c) != 30) {
      if (l == 0)       CHECK("vx-bot", mesh.BCu.type[c] == 11 && EQ(mesh.BCu.val[c], -2*e*(z1-z0)));
      else if (l == Nz) CHECK("vx-top", mesh.BCu.type[c] == 11 && EQ(mesh.BCu.val[c],  2*e*(z1-z0)));
      else if (k == 0)    CHECK("vx-w", mesh.BCu.type[c] == -2 && mesh.BCu.val[c] == 0);
      else if (k == Nx-1) CHECK("vx-e", mesh.BCu.type[c] == -12 && mesh.BCu.val[c] == 0);
      else CHECK("vx-in", mesh.BCu.type[c] == -1 && mesh.BCu.val[c] == 0);
    } else CHECK("vx-air", mesh.BCu.type[c] == 30);
  }
  FORALL(l, 0, Nz) FORALL(k, 0, Nx+1) {
    int c = k + l*(Nx+1);
    if (IN_I("tv", c) != 30) {
      if (k == 0 || k == Nx) CHECK("vz-side", mesh.BCv.type[c] == -12 && mesh.BCv.val[c] == 0);
      else if (l == 0 || l == Nz-1) CHECK("vz-topbot", mesh.BCv.type[c] == 0 && mesh.BCv.val[c] == 0);
      else CHECK("vz-in", mesh.BCv.type[c] == -1 && mesh.BCv.val[c] == 0);
    } else CHECK("vz-air", mesh.BCv.type[c] == 30);
  }
}

/* any callback: the node receives exactly what the user's function returned for its position and coordinates */
static SetBC anyx(MdoodzInput *in, POSITION p, Coordinates c) {
  SetBC b;
  b.type  = p == INTERNAL ? -1 : (p == W ? 0 : p == N ? 11 : p == E ? 0 : p == S ? 11 : 13);
  b.value = 1.0 + 3.0*p + 10.0*c.x + 100.0*c.z + 0.5*c.k + 0.25*c.l;
  return b;
}

void H_setbcs_user(void) {
  SETUP_BC;
  f.SetBCVx = anyx; f.SetBCVz = anyx;
  SetBCs(f, &in, &mesh, &topo);
  FORALL(l, 0, Nz+1) FORALL(k, 0, Nx) {
    int c = k + l*Nx;
    int p = k == 0 ? (l == Nz ? NW : l == 0 ? SW : W) : k == Nx-1 ? (l == Nz ? NE : l == 0 ? SE : E) : l == 0 ? S : l == Nz ? N : INTERNAL;
    double v = 1.0 + 3.0*p + 10.0*xg[k] + 100.0*zvx[l] + 0.5*k + 0.25*l;
    if (IN_I("tu", c) != 30) {
      CHECK("vx-type", mesh.BCu.type[c] == (p == INTERNAL ? -1 : (p == W || p == E) ? 0 : (p == N || p == S) ? 11 : 13));
      CHECK("vx-val", EQS(mesh.BCu.val[c], (p == N || p == S) ? 2*v : v, 100));
    }
  }
  FORALL(l, 0, Nz) FORALL(k, 0, Nx+1) {
    int c = k + l*(Nx+1);
    int p = k == 0 ? (l == Nz-1 ? NW : l == 0 ? SW : W) : k == Nx ? (l == Nz-1 ? NE : l == 0 ? SE : E) : l == 0 ? S : l == Nz-1 ? N : INTERNAL;
    double v = 1.0 + 3.0*p + 10.0*xvz[k] + 100.0*zg[l] + 0.5*k + 0.25*l;
    if (IN_I("tv", c) != 30) {
      CHECK("vz-type", mesh.BCv.type[c] == (p == INTERNAL ? -1 : (p == W || p == E) ? 0 : (p == N || p == S) ? 11 : 13));
      CHECK("vz-val", EQS(mesh.BCv.val[c], (p == N || p == S) ? 2*v : v, 100));
    }
  }
  /* pressure tags */
  FORALL(l, 0, Ncz) FORALL(k, 0, Ncx) {
    int c = k + l*Ncx;
    if (IN_I("tt", c) != 30) {
      int t = IN_I("tp", c), top = l == Ncz-1;
      int pos = k == 0 ? (top ? NW : l == 0 ? SW : W) : k == Ncx-1 ? (top ? NE : l == 0 ? SE : E) : l == 0 ? S : top ? N :
                ((t == -1 || t == 0 || t == 1) && IN_I("tp", c + Ncx) == 30) ? free_surface : INTERNAL;
      CHECK("p-type", mesh.BCp.type[c] == 40 + pos);
      CHECK("p-val", mesh.BCp.val[c] == 0);
    } else CHECK("p-air", mesh.BCp.type[c] == IN_I("tp", c) && mesh.BCp.val[c] == IN_D("vp", c));
  }
}

/* thermal and chemical conditions live on the ring around the cells */
#define RING(tag, BC, tname) \
  int E2 = Ncx+2; \
  FORALL(l, 0, Ncz) { \
    int cw = l*Ncx, ce = Ncx-1 + l*Ncx; \
    if (IN_I(tname, cw) != 30) { \
      CHECK(tag "west", mesh.BC.type[(l+1)*E2] == 2); \
      CHECK(tag "west-v", EQS(mesh.BC.val[(l+1)*E2], W + 10*xc[0] + 100*zc[l] + 1000*mesh.T[cw] + 0.25*l, 1000)); \
    } \
    if (IN_I(tname, ce) != 30) { \
      CHECK(tag "east", mesh.BC.type[Ncx+1 + (l+1)*E2] == 3); \
      CHECK(tag "east-v", EQS(mesh.BC.val[Ncx+1 + (l+1)*E2], E + 10*xc[Ncx-1] + 100*zc[l] + 1000*mesh.T[ce] + 0.5*(Ncx-1) + 0.25*l, 1000)); \
    } \
  } \
  FORALL(k, 0, Ncx) { \
    int cs = k, cn = k + (Ncz-1)*Ncx; \
    if (IN_I(tname, cs) != 30) { \
      CHECK(tag "south", mesh.BC.type[k+1] == 4); \
      CHECK(tag "south-v", EQS(mesh.BC.val[k+1], S + 10*xc[k] + 100*zc[0] + 1000*mesh.T[cs] + 0.5*k, 1000)); \
    } \
    if (IN_I(tname, cn) != 30) { \
      CHECK(tag "north", mesh.BC.type[k+1 + (Ncz+1)*E2] == 5); \
      CHECK(tag "north-v", EQS(mesh.BC.val[k+1 + (Ncz+1)*E2], N + 10*xc[k] + 100*zc[Ncz-1] + 1000*mesh.T[cn] + 0.5*k + 0.25*(Ncz-1), 1000)); \
    } \
    CHECK(tag "top-row", mesh.BC.type[k+1 + Ncz*E2] == IN_I(tname, cn)); \
  } \
  FORALL(l, 0, Ncz-1) FORALL(k, 0, Ncx) { \
    int c = k + l*Ncx, t = IN_I(tname, c), tn = IN_I(tname, c + Ncx), ce = k+1 + (l+1)*E2; \
    if ((t == -1 || t == 0 || t == 1) && tn == 30) { \
      CHECK(tag "surface", mesh.BC.type[ce] == 6); \
      CHECK(tag "surface-v", EQS(mesh.BC.val[ce], free_surface + 10*xc[k] + 100*zc[l] + 1000*mesh.T[c] + 0.5*k + 0.25*l, 1000)); \
    } else CHECK(tag "inner", mesh.BC.type[ce] == t); \
  }

void H_setbcs_thermal(void) {
  SETUP_BC;
  f.SetBCVx = SetPureOrSimpleShearBCVx; f.SetBCVz = SetPureOrSimpleShearBCVz;
  in.model.shear_style = 0;
  SetBCs(f, &in, &mesh, &topo);
  RING("T-", BCT_exp, "tt")
}

void H_setbcs_chemical(void) {
  SETUP_BC;
  f.SetBCVx = SetPureOrSimpleShearBCVx; f.SetBCVz = SetPureOrSimpleShearBCVz;
  in.model.shear_style = 0;
  mesh.BCt.type = mesh.BCc.type;   /* the two tag arrays are set alike by the cell flagging */
  SetBCs(f, &in, &mesh, &topo);
  RING("C-", BCC_exp, "tc")
}

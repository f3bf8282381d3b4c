#include "vspec.h"
static double dmin2(double a, double b) { return a < b ? a : b; }
static double clampdt(double d, double lo, double hi) { if (d > hi) d = hi; if (d < lo) d = lo; return d; }

#define SETUP_T \
  NEW_GRID(mesh); NEW_PARAMS(model); NEW_SCALE(sc); \
  int Nx = ND_I("Nx", 2, 6), Nz = ND_I("Nz", 2, 6); \
  model.Nx = Nx; model.Nz = Nz; mesh.Nx = Nx; mesh.Nz = Nz; \
  double dx = model.dx = ND_DP("dx", 0.1, 1), dz = model.dz = ND_DP("dz", 0.1, 1); \
  double C = model.Courant = ND_DP("C", 0.1, 1); \
  double dt0 = model.dt0 = ND_DP("dt0", 0.01, 1); \
  double dts = model.dt_start = ND_DP("dtstart", 0.01, 1); \
  double dtmax = model.dt_max = ND_DP("dtmax", 0.1, 1), dtmin = model.dt_min = ND_DP("dtmin", 0.01, 0.1); \
  double dtold = model.dt = ND_DP("dt", 0.01, 1); \
  ASSUME(dt0 < 1e29); ASSUME(dtmin <= dtmax); ASSUME(dts < 1e29); \
  model.elastic = ND_IR("elastic", 0, 1); \
  model.surface_processes = ND_IR("sp", 0, 3); model.surf_Vinc = ND_DP("vinc", 0.1, 1); \
  model.chemical_diffusion = ND_IR("chem", 0, 1); model.user1 = ND_DP("user1", 0.1, 1); model.dt_reduction_factor = ND_DP("rf", 0.1, 1); \
  sc.t = ND_DP("st", 0.5, 2); sc.T = ND_DP("sT", 0.5, 2); sc.V = ND_DP("sV", 0.5, 2); \
  model.thermal = ND_IR("thermal", 0, 1); \
  mesh.T = NDARR("T", (Nx-1)*(Nz-1), 0, 1); mesh.T0_n = NDARR("T0", (Nx-1)*(Nz-1), 0, 1); \
  double dmin = dmin2(dx, dz), fact = model.elastic == 1 ? 1.25 : 2.0

/* adaptive step: never outruns the Courant limit, never grows too fast, stays in the user's bounds */
void H_courant_upper(void) {
  SETUP_T;
  model.constant_dt = 0;
  double *Vx = NDARR("Vx", Nx*(Nz+1), -1, 1), *Vz = NDARR("Vz", (Nx+1)*Nz, -1, 1);
  EvaluateCourantCriterion(Vx, Vz, &model, sc, &mesh, 1);
  double dt = model.dt;
  CHECK("dt-min", dt >= dtmin);
  CHECK("dt-max", dt <= dtmax);
  FORALL(l, 0, Nz+1) FORALL(k, 0, Nx) {
    double v = Vx[k + l*Nx];
    if (dt > dtmin && (v >= 1e-30 || v <= -1e-30)) {
      CHECK("courant-vx", LE(v*dt, C*dmin) && LE(-v*dt, C*dmin));
      CHECK("growth-vx", LE(dt, fact*dt0));
      CHECK("surf-vx", IMPLIES(model.surface_processes > 0, LE(dt*IN_S("vinc"), C*dmin)));
      CHECK("chem-vx", IMPLIES(model.chemical_diffusion == 1, LE(dt*IN_S("rf"), IN_S("user1")/IN_S("st"))));
    }
  }
  FORALL(l, 0, Nz) FORALL(k, 0, Nx+1) {
    double v = Vz[k + l*(Nx+1)];
    if (dt > dtmin && (v >= 1e-30 || v <= -1e-30)) {
      CHECK("courant-vz", LE(v*dt, C*dmin) && LE(-v*dt, C*dmin));
      CHECK("growth-vz", LE(dt, fact*dt0));
    }
  }
}

/* adaptive step: exactly the tightest of the limits (uniform translation along x or along z) */
void H_courant_exact_x(void) {
  SETUP_T;
  model.constant_dt = 0; model.thermal = 0;
  double U = ND_D("U", -1, 1), a = U < 0 ? -U : U;
  ASSUME(a >= 1e-30);
  double *Vx = NDARR_R("Vx", Nx*(Nz+1), U, U), *Vz = NDARR_R("Vz", (Nx+1)*Nz, 0, 0);
  EvaluateCourantCriterion(Vx, Vz, &model, sc, &mesh, 1);
  double lim = dmin2(C*dmin/a, fact*dt0);
  if (model.surface_processes > 0) lim = dmin2(lim, C*dmin/IN_S("vinc"));
  if (model.chemical_diffusion == 1) lim = dmin2(lim, IN_S("user1")/IN_S("st")/IN_S("rf"));
  CHECK("exact-x", EQ(model.dt, clampdt(lim, dtmin, dtmax)));
}

void H_courant_exact_z(void) {
  SETUP_T;
  model.constant_dt = 0; model.surface_processes = 0; model.chemical_diffusion = 0; model.thermal = 0;
  double U = ND_D("U", -1, 1), a = U < 0 ? -U : U;
  ASSUME(a >= 1e-30);
  double *Vx = NDARR_R("Vx", Nx*(Nz+1), 0, 0), *Vz = NDARR_R("Vz", (Nx+1)*Nz, U, U);
  EvaluateCourantCriterion(Vx, Vz, &model, sc, &mesh, 1);
  CHECK("exact-z", EQ(model.dt, clampdt(dmin2(C*dmin/a, fact*dt0), dtmin, dtmax)));
}

/* adaptive step: not smaller than the limits ask for */
void H_courant_lower(void) {
  SETUP_T;
  model.constant_dt = 0; model.surface_processes = 0; model.chemical_diffusion = 0; model.thermal = 0;
  double U = ND_DP("U", 0.1, 1);
  double *Vx = NDARR_R("Vx", Nx*(Nz+1), -U, U), *Vz = NDARR_R("Vz", (Nx+1)*Nz, -U, U);
  EvaluateCourantCriterion(Vx, Vz, &model, sc, &mesh, 1);
  CHECK("lower", LE(dmin2(clampdt(dts, dtmin, dtmax), clampdt(dmin2(C*dmin/U, fact*dt0), dtmin, dtmax)), model.dt));
}

void H_courant_rest(void) {
  SETUP_T;
  model.constant_dt = 0; model.surface_processes = 0; model.chemical_diffusion = 0;
  double *Vx = NDARR_R("Vx", Nx*(Nz+1), 0, 0), *Vz = NDARR_R("Vz", (Nx+1)*Nz, 0, 0);
  EvaluateCourantCriterion(Vx, Vz, &model, sc, &mesh, 1);
  CHECK("rest", EQ(model.dt, clampdt(dts, dtmin, dtmax)));
}

void H_courant_fixed(void) {
  SETUP_T;
  model.constant_dt = 1;
  double *Vx = NDARR("Vx", Nx*(Nz+1), -1, 1), *Vz = NDARR("Vz", (Nx+1)*Nz, -1, 1);
  EvaluateCourantCriterion(Vx, Vz, &model, sc, &mesh, 1);
  CHECK("fixed", model.dt == dts);
  CHECK("fixed-dt0", model.dt0 == dt0);
}

void H_advection_dt(void) {
  SETUP_T;
  model.constant_dt = ND_IR("cdt", 0, 1);
  ASSUME(dtold < 1e29);
  double *Vx = NDARR("Vx", Nx*(Nz+1), -1, 1), *Vz = NDARR("Vz", (Nx+1)*Nz, -1, 1);
  Check_dt_for_advection(Vx, Vz, &model, sc, &mesh, 1);
  double dt = model.dt;
  if (model.constant_dt == 1) CHECK("fixed", dt == dts);
  else {
    FORALL(l, 0, Nz+1) FORALL(k, 0, Nx) {
      double v = Vx[k + l*Nx];
      if (v >= 1e-30 || v <= -1e-30) {
        CHECK("adv-vx", LE(v*dt, C*dmin) && LE(-v*dt, C*dmin));
        CHECK("adv-cap", LE(dt, dtold));
      }
    }
    FORALL(l, 0, Nz) FORALL(k, 0, Nx+1) {
      double v = Vz[k + l*(Nx+1)];
      if (v >= 1e-30 || v <= -1e-30) CHECK("adv-vz", LE(v*dt, C*dmin) && LE(-v*dt, C*dmin));
    }
  }
}

#include "vspec.h"
#define USE_CONTRACT_C2V
#include "contracts.h"

/* ---- table look-up: bilinear in the cell that holds the point, clamped to the table ---- */
void H_table_cell(void) {
  int nT = ND_I("nT", 2, 6), nP = ND_I("nP", 2, 6);
  double Tmin = ND_D("Tmin", 0, 1), Tmax = ND_D("Tmax", 2, 3), Pmin = ND_D("Pmin", 0, 1), Pmax = ND_D("Pmax", 2, 3);
  ASSUME(Tmin < Tmax && Pmin < Pmax);
  double dT = (Tmax - Tmin)/(nT - 1.0), dP = (Pmax - Pmin)/(nP - 1.0);
  int i = ND_IR("i", 0, nT-2), j = ND_IR("j", 0, nP-2);
  double s = ND_DP("s", 0, 1), t = ND_DP("t", 0, 1);
  ASSUME(s <= 1 && t <= 1);
  NATIVE(ASSUME(s > 0.001 && s < 0.999 && t > 0.001 && t < 0.999);)   /* rounding: stay off the nodes natively */
  double *data = NDARR("data", nT*nP, -1, 1);
  double r = Interpolate2Ddata(Tmin + (i+s)*dT, Pmin + (j+t)*dP, Tmin, Tmax, Pmin, Pmax, nT, nP, data);
  double e = (1-s)*(1-t)*IN_D("data", i+j*nT) + s*(1-t)*IN_D("data", i+1+j*nT) + (1-s)*t*IN_D("data", i+(j+1)*nT) + s*t*IN_D("data", i+1+(j+1)*nT);
  CHECK("bilinear", EQS(r, e, 50));
}

static double clampt(double x, double lo, double hi, double n) {
  double d = (hi - lo)/(n - 1.0);
  return x < lo ? lo + 0.01*d : x > hi ? hi - 0.01*d : x;
}

void H_table_affine(void) {
  int nT = ND_I("nT", 2, 6), nP = ND_I("nP", 2, 6);
  double Tmin = ND_D("Tmin", 0, 1), Tmax = ND_D("Tmax", 2, 3), Pmin = ND_D("Pmin", 0, 1), Pmax = ND_D("Pmax", 2, 3);
  ASSUME(Tmin < Tmax && Pmin < Pmax);
  double a = ND_D("a", -1, 1), b = ND_D("b", -1, 1), c = ND_D("c", -1, 1), d = ND_D("d", -1, 1);
  double *data = ARR_D("data", nT*nP);
  for (int j = 0; j < nP; j++) for (int i = 0; i < nT; i++) data[i + j*nT] = a + b*i + c*j + d*i*j;
  double T = ND_D("T", -1, 4), P = ND_D("P", -1, 4);
  double r = Interpolate2Ddata(T, P, Tmin, Tmax, Pmin, Pmax, nT, nP, data);
  double x = (clampt(T, Tmin, Tmax, nT) - Tmin)/((Tmax-Tmin)/(nT-1.0)), y = (clampt(P, Pmin, Pmax, nP) - Pmin)/((Pmax-Pmin)/(nP-1.0));
  CHECK("affine", EQS(r, a + b*x + c*y + d*x*y, 50));
}

void H_table1d(void) {
  NEW_PARAMS(model);
  int k = ND_IR("k", 0, 9), n = ND_I("n", 2, 7);
  double lo = ND_D("Pmin", 0, 1), hi = ND_D("Pmax", 2, 3), P = ND_D("P", -1, 4);
  ASSUME(lo < hi);
  double a = ND_D("a", -1, 1), b = ND_D("b", -1, 1);
  int PDn[10]; double PDmin[10], PDmax[10]; double *tab[10];
  model.PD1DnP = PDn; model.PD1Dmin = PDmin; model.PD1Dmax = PDmax; model.PD1Drho = tab;
  PDn[k] = n; PDmin[k] = lo; PDmax[k] = hi;
  double *data = ARR_D("data", n);
  for (int i = 0; i < n; i++) data[i] = a + b*i;
  tab[k] = data;
  double r = ItpRho1D(P, &model, k);
  double x = (clampt(P, lo, hi, n) - lo)/((hi-lo)/(n-1.0));
  CHECK("affine1d", EQS(r, a + b*x, 50));
}

/* ---- equations of state ---- */
void H_eos(void) {
  NEW_PARAMS(model); NEW_MATPROP(m);
  int p = ND_IR("p", 0, 9), q = ND_IR("q", 0, 9), dm = ND_IR("dm", 0, 5);
  ASSUME(dm != 2 && dm != 4 && p != q);
  double T = ND_D("T", 0, 1), P = ND_D("P", 0, 1), X = ND_D("X", 0, 1), phi = ND_D("phi", 0, 1);
  m.density_model[p] = dm;
  m.rho[p] = ND_D("rho", 1, 2); m.drho[p] = ND_D("drho", -1, 1); m.T0[p] = ND_D("T0", 0, 1); m.alp[p] = ND_D("alp", 0, 1);
  m.P0[p] = ND_D("P0", 0, 1); m.bet[p] = ND_D("bet", 0, 1); m.reac_phase[p] = q; m.rho[q] = ND_D("rho2", 1, 2);
  model.density_variations = ND_IR("dv", 0, 1);
  double r = EvaluateDensity(p, T, P, X, phi, &model, &m);
  double rho = IN_S("rho"), al = IN_S("alp"), be = IN_S("bet");
  if (dm == 0) CHECK("const", EQ(r, rho));
  if (dm == 1) {
    CHECK("linear", EQ(r, (rho + X*IN_S("drho"))*(1 - al*(T - IN_S("T0")))*(1 + be*(P - IN_S("P0")))));
    CHECK("reference", IMPLIES(T == IN_S("T0") && P == IN_S("P0") && X == 0, EQ(r, rho)));
  }
  if (dm == 3) {
    double ref = model.density_variations == 1 ? (1-X)*rho + X*IN_S("rho2") : rho;
    CHECK("exponential", EQ(r, ref*exp(be*P - al*T)));
  }
  if (dm == 5) CHECK("melt", EQ(r, (rho + phi*IN_S("drho"))*exp(be*P - al*T)));
}

/* ---- table dispatch: the phase's own table is the one looked up ---- */
void H_eos_tables(void) {
  NEW_PARAMS(model); NEW_MATPROP(m);
  int p = ND_IR("p", 0, 9), pd = ND_IR("pd", 0, 9), n = ND_I("n", 2, 6), nT = ND_I("nT", 2, 6), nP = ND_I("nP", 2, 6);
  double T = ND_D("T", -1, 4), P = ND_D("P", -1, 4), X = ND_D("X", 0, 1), phi = ND_D("phi", 0, 1);
  double T0 = ND_D("Tmin", 0, 1), T1 = ND_D("Tmax", 2, 3), P0 = ND_D("Pmin", 0, 1), P1 = ND_D("Pmax", 2, 3), lo = ND_D("lo", 0, 1), hi = ND_D("hi", 2, 3);
  ASSUME(T0 < T1 && P0 < P1 && lo < hi);
  int a1[10], a2[10], PDn[10]; double b1[10], b2[10], b3[10], b4[10], PDmin[10], PDmax[10]; double *t2[10], *t1[10];
  model.PDMnT = a1; model.PDMnP = a2; model.PDMTmin = b1; model.PDMTmax = b2; model.PDMPmin = b3; model.PDMPmax = b4; model.PDMrho = t2;
  model.PD1DnP = PDn; model.PD1Dmin = PDmin; model.PD1Dmax = PDmax; model.PD1Drho = t1;
  a1[pd] = nT; a2[pd] = nP; b1[pd] = T0; b2[pd] = T1; b3[pd] = P0; b4[pd] = P1;
  PDn[p] = n; PDmin[p] = lo; PDmax[p] = hi;
  t2[pd] = NDARR("t2", nT*nP, -1, 1); t1[p] = NDARR("t1", n, -1, 1);
  m.phase_diagram[p] = pd;
  m.density_model[p] = 2;
  double r2 = EvaluateDensity(p, T, P, X, phi, &model, &m);
  CHECK("diagram", EQ(r2, Interpolate2Ddata(T, P, T0, T1, P0, P1, nT, nP, t2[pd])));
  m.density_model[p] = 4;
  double r4 = EvaluateDensity(p, T, P, X, phi, &model, &m);
  CHECK("profile", EQ(r4, ItpRho1D(P, &model, p)));
}

/* ---- density of a cell: fraction-weighted mean over the phases present ---- */
void H_update(void) {
  NEW_PARAMS(model); NEW_MATPROP(m); NEW_GRID(mesh); NEW_SCALE(sc); NEW_MARKERS(mk);
  int Nx = ND_I("Nx", 2, 5), Nz = ND_I("Nz", 2, 5), Ncx = Nx-1, Ncz = Nz-1, np = ND_IR("np", 1, 20);
  mesh.Nx = Nx; mesh.Nz = Nz; model.Nb_phases = np; model.periodic_x = 0;
  for (int p = 0; p < np; p++) {
    m.density_model[p] = 1; m.rho[p] = ND_D1("rho", p, 1, 2); m.drho[p] = ND_D1("drho", p, -1, 1); m.T0[p] = ND_D1("T0", p, 0, 1);
    m.alp[p] = ND_D1("alp", p, 0, 1); m.P0[p] = ND_D1("P0", p, 0, 1); m.bet[p] = ND_D1("bet", p, 0, 1);
  }
  mesh.BCp.type = NDARR_C("tp", Ncx*Ncz, -1, 31); mesh.BCg.type = NDARR_C("tg", Nx*Nz, -1, 31);
  mesh.phase_perc_n = NDARR2("perc", 20, Ncx*Ncz, 0, 1);
  mesh.T = NDARR("T", Ncx*Ncz, 0, 1); mesh.p_in = NDARR("P", Ncx*Ncz, 0, 1); mesh.X_n = NDARR("X", Ncx*Ncz, 0, 1); mesh.phi_n = NDARR("phi", Ncx*Ncz, 0, 1);
  mesh.rho_n = ARR_D("rhon", Ncx*Ncz); mesh.rho_s = ARR_D("rhos", Nx*Nz); mesh.rho0_n = ARR_D("rho0n", Ncx*Ncz);
  UpdateDensity(&mesh, &mk, &m, &model, &sc);
  FORALL(c, 0, Ncx*Ncz) {
    double s = 0.0;
    for (int p = 0; p < np; p++) {
      double f = mesh.phase_perc_n[p][c];
      if ((f > 1e-13 || f < -1e-13) && mesh.BCp.type[c] != 30)
        s += f*(IN_D("rho", p) + mesh.X_n[c]*IN_D("drho", p))*(1 - IN_D("alp", p)*(mesh.T[c] - IN_D("T0", p)))*(1 + IN_D("bet", p)*(mesh.p_in[c] - IN_D("P0", p)));
    }
    CHECK("mean", EQS(mesh.rho_n[c], s, 10));
  }
  FORALL(l, 0, Nz) FORALL(k, 0, Nx)
    CHECK("vertex", EQS(mesh.rho_s[k + l*Nx], mesh.BCg.type[k + l*Nx] == 30 ? 0.0 : c2v(mesh.rho_n, mesh.BCp.type, k, l, Nx, Nz, 0), 10));
}

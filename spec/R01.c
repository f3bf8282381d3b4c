#include "vspec.h"
#include "RheologyDensity.h"
double ViscosityConcise(int, double, double, double, double, double, double, double, double, double, double, double, double, mat_prop*, params*, scale*, double*, double*, double*, double*, double*, double*, double*, double*, double*, double*, double*, double*, double*, double, double, double, double, double, double, double*, double*, double*, double*, double, double, double*, double*, double*, double*, double*, double*, int, int, int, int);
void LocalIterationViscoElastic(LocalIterationMutables, LocalIterationParams);

/* ---- local iterations: on return the strain rates of the active mechanisms follow their flow laws at the
 * returned stress, the others are zero, and together they make up the total strain rate ---- */
#define H_LOCAL(ON) \
  OPTION("noexit", 0); OPTION("last", 1); OPTION("bounds", 0); \
  LocalIterationParams q; memset(&q, 0, sizeof q); \
  q.noisy = 0; \
  q.Eii = ND_DP("Eii", 0, 2); \
  q.eta_el = ND_DP("eta_el", 0, 2); q.eta_cst = ND_DP("eta_cst", 0, 2); \
  q.C_pwl = ND_DP("C_pwl", 0, 1); q.C_lin = ND_DP("C_lin", 0, 1); q.C_exp = ND_DP("C_exp", 0, 1); q.C_gbs = ND_DP("C_gbs", 0, 1); \
  q.n_pwl = ND_DR("n_pwl", 1, 4); q.n_lin = ND_DR("n_lin", 1, 1.5); q.n_gbs = ND_DR("n_gbs", 1, 2); q.n_exp = ND_DR("n_exp", 0, 2); q.ST = ND_DR("ST", 1, 3); \
  q.m_lin = ND_DR("m_lin", 0, 3); q.d = ND_DP("d", 0, 1); \
  q.elastic = ND_IR("elastic", 0, 1); q.constant = ND_IR("constant", ON, 1); q.dislocation = ND_IR("dislocation", ON, 1); \
  q.diffusion = ND_IR("diffusion", ON, 1); q.peierls = ND_IR("peierls", ON, 1); q.gbs = ND_IR("gbs", ON, 1); \
  NATIVE(ASSUME(q.Eii > 0.1 && q.eta_el > 0.1 && q.eta_cst > 0.1 && q.d > 0.3 && (q.elastic || q.constant || q.dislocation || q.diffusion || q.peierls));) \
  double eta = ND_DP("eta", 0, 0.1), T = ND_D("T", 0, 1), cst, pwl, gbs, ex, lin; \
  LocalIterationMutables m; memset(&m, 0, sizeof m); \
  m.eta = &eta; m.Tii = &T; m.Eii_cst = &cst; m.Eii_pwl = &pwl; m.Eii_gbs = &gbs; m.Eii_exp = &ex; m.Eii_lin = &lin; \
  VERIFIES(LocalIterationViscoElastic); LocalIterationViscoElastic(m, q);

void H_local(void) {
  H_LOCAL(0)
  CHECK("constant", EQ(cst, q.constant ? T/2.0/q.eta_cst : 0.0));
  CHECK("dislocation", EQ(pwl, q.dislocation ? q.C_pwl*pow(T, q.n_pwl) : 0.0));
  CHECK("gbs", EQ(gbs, q.gbs ? q.C_gbs*pow(T, q.n_gbs) : 0.0));
  CHECK("peierls", EQ(ex, q.peierls ? q.C_exp*pow(T, q.ST + q.n_exp) : 0.0));
  CHECK("diffusion", EQ(lin, q.diffusion ? q.C_lin*pow(T, q.n_lin)*pow(q.d, -q.m_lin) : 0.0));
  double r = q.Eii - q.elastic*T/(2.0*q.eta_el) - (pwl + ex + lin + gbs + cst);
  CHECK("balance", fabs(r/q.Eii) <= 1.0e-11);
}
/* a converged exit returns the viscosity that belongs to the stress (all mechanisms on; a zero constant stands for one that is off) */
void H_local_exit(void) {
  H_LOCAL(1)
  double r = q.Eii - q.elastic*T/(2.0*q.eta_el) - (pwl + ex + lin + gbs + cst);
  CHECK("viscosity", IMPLIES(fabs(r/q.Eii) < 0.9e-13, EQ(T, 2.0*eta*q.Eii)));
}

/* ---- the same with a grain size that follows the paleowattmeter ---- */
void LocalIterationViscoElasticGrainSize(LocalIterationMutables, LocalIterationParams);
#define H_LOCAL_GRAINS(ON) \
  OPTION("noexit", 0); OPTION("last", 1); OPTION("bounds", 0); \
  LocalIterationParams q; memset(&q, 0, sizeof q); \
  q.noisy = 0; \
  q.Eii = ND_DP("Eii", 0.5, 2); \
  q.eta_el = ND_DP("eta_el", 0.5, 2); q.eta_cst = ND_DP("eta_cst", 0.5, 2); \
  q.C_pwl = ND_DP("C_pwl", 0.5, 1); q.C_lin = ND_DP("C_lin", 0, 0.1); q.C_exp = ND_DP("C_exp", 0, 1); q.C_gbs = ND_DP("C_gbs", 0, 1); \
  q.n_pwl = ND_DR("n_pwl", 1, 4); q.n_lin = ND_DR("n_lin", 1, 1.5); q.n_gbs = ND_DR("n_gbs", 1, 2); q.n_exp = ND_DR("n_exp", 0, 2); q.ST = ND_DR("ST", 1, 3); \
  q.m_lin = ND_DR("m_lin", 0, 2); q.pg = ND_DR("pg", 1, 3); q.Ag = ND_DP("Ag", 0.5, 1); q.lam = ND_DP("lam", 0.5, 1); q.cg = ND_DP("cg", 0.5, 1); q.gam = ND_DP("gam", 0.5, 1); \
  q.elastic = ND_IR("elastic", 0, 1); q.constant = ND_IR("constant", ON, 1); q.dislocation = 1; \
  q.diffusion = ND_IR("diffusion", ON, 1); q.peierls = ND_IR("peierls", ON, 1); q.gbs = ND_IR("gbs", ON, 1); \
  q.eta_up = 1.0; q.eta_lo = 0.5; \
  double eta = ND_DP("eta", 0, 0.1), T = ND_D("T", 0, 1), d = ND_DP("d", 0.5, 1), cst, pwl, gbs, ex, lin; \
  LocalIterationMutables m; memset(&m, 0, sizeof m); \
  m.eta = &eta; m.Tii = &T; m.Eii_cst = &cst; m.Eii_pwl = &pwl; m.Eii_gbs = &gbs; m.Eii_exp = &ex; m.Eii_lin = &lin; m.d1 = &d; \
  LocalIterationViscoElasticGrainSize(m, q); \
  NATIVE(ASSUME(eta == eta);)

void H_local_grains(void) {
  H_LOCAL_GRAINS(0)
  CHECK("constant", EQ(cst, q.constant ? T/2.0/q.eta_cst : 0.0));
  CHECK("dislocation", EQ(pwl, q.C_pwl*pow(T, q.n_pwl)));
  CHECK("gbs", EQ(gbs, q.gbs ? q.C_gbs*pow(T, q.n_gbs) : 0.0));
  CHECK("peierls", EQ(ex, q.peierls ? q.C_exp*pow(T, q.ST + q.n_exp) : 0.0));
  CHECK("diffusion", EQ(lin, q.diffusion ? q.C_lin*pow(T, q.n_lin)*pow(d, -q.m_lin) : 0.0));
  double r = q.Eii - q.elastic*T/(2.0*q.eta_el) - (pwl + ex + lin + gbs + cst);
  CHECK("balance", fabs(r/q.Eii) <= 1.0e-11);
}
/* a converged exit returns the viscosity that belongs to the stress (all mechanisms on; a zero constant stands for one that is off) */
void H_local_grains_exit(void) {
  H_LOCAL_GRAINS(1)
  double r = q.Eii - q.elastic*T/(2.0*q.eta_el) - (pwl + ex + lin + gbs + cst);
  CHECK("viscosity", IMPLIES(fabs(r/q.Eii) < 0.9e-13, EQ(T, 2.0*eta*q.Eii)));
  CHECK("grains", IMPLIES(fabs(r/q.Eii) < 0.9e-13, EQ(d, pow(2.0*q.lam/(q.cg*q.gam)*q.Eii*pwl*eta*q.pg/q.Ag, -1.0/(q.pg + 1.0)))));
}

/* ---- effective viscosity and stress of one phase ----
 * the local iterations enter through their contract: any viscosity and any mechanism strain rates that follow
 * the flow laws handed over; in the proof GETA, GT are that viscosity and stress, natively they are read off the result */
static double GETA, GT;
static LocalIterationParams GQ;
#ifdef VSPEC_SYM
void CONTRACT_LocalIterationViscoElastic(LocalIterationMutables m, LocalIterationParams q) {
  GQ = q;
  GETA = ND_DP("geta", 0, 1); GT = 2.0*GETA*q.Eii;
  *m.eta = GETA; *m.Tii = GT;
  *m.Eii_cst = q.constant ? GT/2.0/q.eta_cst : 0.0;
  *m.Eii_pwl = q.dislocation ? q.C_pwl*pow(GT, q.n_pwl) : 0.0;
  *m.Eii_gbs = q.gbs ? q.C_gbs*pow(GT, q.n_gbs) : 0.0;
  *m.Eii_exp = q.peierls ? q.C_exp*pow(GT, q.ST + q.n_exp) : 0.0;
  *m.Eii_lin = q.diffusion ? q.C_lin*pow(GT, q.n_lin)*pow(q.d, -q.m_lin) : 0.0;
  double r = q.Eii - q.elastic*GT/(2.0*q.eta_el) - (*m.Eii_pwl + *m.Eii_exp + *m.Eii_lin + *m.Eii_gbs + *m.Eii_cst);
  ASSUME(fabs(r/q.Eii) <= 1.0e-11);
}
#define SMALL 1.0e-11
#else
#define SMALL 1.0e-8
#endif
/* flow laws: strain rate = C T^n with C = (2B)^-n */
#define ARRHENIUS(F, A, n, Q, V, f, r, a) (F*pow(A, -1.0/n)*exp((Q + P*V)/m.R/n/Tk)*pow(f, -r/n)*exp(-a*phi/n))

#define MATERIAL OPTION("branch", 40); NEW_PARAMS(model); NEW_MATPROP(m); NEW_SCALE(sc); int p = ND_IR("p", 0, 9), p2 = ND_IR("p2", 0, 9); \
  sc.T = 300.0; sc.E = 1.0; sc.S = 1e8; sc.L = 1.0; sc.eta = 1.0; \
  m.R = ND_DP("R", 0.5, 1.5); \
  m.cstv[p] = ND_IR("cstv", 0, 1); m.pwlv[p] = ND_IR("pwlv", 0, 1); m.expv[p] = ND_IR("expv", 0, 1); m.linv[p] = ND_IR("linv", 0, 1); m.gbsv[p] = ND_IR("gbsv", 0, 1); \
  m.gs[p] = 0; m.kin[p] = 0; m.phase_mix[p] = 0; m.reac_soft[p] = 0; m.plast[p] = 0; m.gs_ref[p] = ND_DP("gs_ref", 0, 1); \
  m.Qpwl[p] = ND_DG("Qpwl", 0, 1); m.Vpwl[p] = ND_DG("Vpwl", 0, 0.1); m.npwl[p] = ND_DR("npwl", 1, 4); m.mpwl[p] = ND_DG("mpwl", 0, 1); m.rpwl[p] = ND_DG("rpwl", 0, 1); \
  m.Apwl[p] = ND_DP("Apwl", 0.5, 2); m.fpwl[p] = ND_DP("fpwl", 0.5, 2); m.apwl[p] = ND_DG("apwl", 0, 1); m.Fpwl[p] = ND_DP("Fpwl", 0.5, 2); m.pref_pwl[p] = ND_DP("pref", 0.5, 2); \
  m.Qlin[p] = ND_DG("Qlin", 0, 1); m.Vlin[p] = ND_DG("Vlin", 0, 0.1); m.nlin[p] = ND_DR("nlin", 1, 1.5); m.mlin[p] = ND_DG("mlin", 0, 3); m.rlin[p] = ND_DG("rlin", 0, 1); \
  m.Alin[p] = ND_DP("Alin", 0.5, 2); m.flin[p] = ND_DP("flin", 0.5, 2); m.alin[p] = ND_DG("alin", 0, 1); m.Flin[p] = ND_DP("Flin", 0.5, 2); \
  m.Qgbs[p] = ND_DG("Qgbs", 0, 1); m.Vgbs[p] = ND_DG("Vgbs", 0, 0.1); m.ngbs[p] = ND_DR("ngbs", 1, 3); m.mgbs[p] = ND_DG("mgbs", 0, 2); m.rgbs[p] = ND_DG("rgbs", 0, 1); \
  m.Agbs[p] = ND_DP("Agbs", 0.5, 2); m.fgbs[p] = ND_DP("fgbs", 0.5, 2); m.agbs[p] = ND_DG("agbs", 0, 1); m.Fgbs[p] = ND_DP("Fgbs", 0.5, 2); \
  m.Qexp[p] = ND_DP("Qexp", 1, 8); m.Sexp[p] = ND_DP("Sexp", 1, 3); m.Eexp[p] = ND_DP("Eexp", 0.5, 2); m.Gexp[p] = ND_DR("Gexp", 0.1, 0.9); m.nexp[p] = ND_DR("nexp", 0, 2); \
  m.eta0[p] = ND_DP("eta0", 0.5, 2); m.density_model[p] = 1; m.rho[p] = ND_D("rho", 1, 2); m.drho[p] = ND_D("drho", -1, 1); m.T0[p] = ND_D("T0m", 0, 1); \
  m.alp[p] = ND_D("alp", 0, 0.1); m.P0[p] = ND_D("P0m", 0, 1); m.bet[p] = ND_D("betm", 0, 0.1); \
  model.min_eta = ND_DP("min_eta", 0, 0.3); model.max_eta = ND_DP("max_eta", 0.1, 1); ASSUME(model.min_eta <= model.max_eta); \
  model.step = ND_IR("step", 0, 3); model.elastic = ND_IR("elastic", 0, 1); model.dt = ND_DP("dt", 0.5, 2); model.diffuse_X = 0; model.diffuse_avg = 0; model.chemical_production = 0; \
  model.melting = 0; model.density_variations = ND_IR("dv", 0, 1); model.eta_tol = 1e-11; \
  double G = ND_DP("G", 0.5, 2), T = ND_DP("T", 0.5, 6), P = ND_D("P", 0, 1), d = ND_DP("d", 0.3, 1), phi = ND_DR("phi", 0, 1), X0 = ND_DR("X0", 0, 1); \
  double Exx = ND_D("Exx", -1, 1), Ezz = ND_D("Ezz", -1, 1), Exz = ND_D("Exz", -1, 1), Txx0 = ND_D("Txx0", -1, 1), Tzz0 = ND_D("Tzz0", -1, 1), Txz0 = ND_D("Txz0", -1, 1); \
  double dil = ND_DR("dil", 0, 0.5), fric = ND_DR("fric", 0, 0.7), C = ND_DG("C", 0, 1), P0 = ND_D("P0", 0, 1), T0 = ND_D("T0", 1, 2), beta = ND_DP("beta", 0.5, 2); \
  int centroid = ND_IR("centroid", 0, 1), fin = ND_IR("fin", 0, 1); \
  double Txx, Tzz, Txz, etaVE, VEc, el, pl, pwl, ex, lin, gbs, cst, d1, X1, Ov, Pc, rho, de, dp, dr, Wt, We, Wd; \
  double E = sqrt(0.5*(Exx*Exx + Ezz*Ezz + (Exx+Ezz)*(Exx+Ezz)) + Exz*Exz); \
  ASSUME(E*sc.E >= 1e-30)
#define VISCOSITY ViscosityConcise(p, G, T, P, d, phi, X0, Exx, Ezz, Exz, Txx0, Tzz0, Txz0, &m, &model, &sc, &Txx, &Tzz, &Txz, &etaVE, &VEc, &el, &pl, &pwl, &ex, &lin, &gbs, &cst, &d1, \
  0.0, dil, fric, C, P0, T0, &X1, &Ov, &Pc, &rho, beta, 0.0, &de, &dp, &dr, &Wt, &We, &Wd, 1, centroid, fin, 0)

#define VISCOUS OPTION("noexit", 0); MATERIAL; \
  NATIVE(ASSUME((model.elastic && model.step) || m.cstv[p] || m.pwlv[p] || m.linv[p] || m.gbsv[p]);) \
  NATIVE(ASSUME(fabs(Exx) > 0.05);) \
  double eta = VISCOSITY; \
  NATIVE(GETA = Txx/2.0/Exx; GT = 2.0*GETA*E;) \
  int elastic = model.elastic && model.step != 0; \
  double Tk = T < 273.15/300.0 ? 273.15/300.0 : T, dt = model.step == 0 ? 1e100 : model.dt, K = elastic ? 1.0/beta : 1e10

void H_flowlaws(void) {
  VISCOUS;
  double n = m.npwl[p], B = m.pref_pwl[p]*ARRHENIUS(m.Fpwl[p], m.Apwl[p], n, m.Qpwl[p], m.Vpwl[p], m.fpwl[p], m.rpwl[p], m.apwl[p])*pow(d, m.mpwl[p]/n);
  CHECK("constant", EQ(cst, m.cstv[p] ? GT/2.0/m.eta0[p] : 0.0));
  CHECK("dislocation", EQS(pwl, m.pwlv[p] ? pow(2.0*B, -n)*pow(GT, n) : 0.0, 1e3));
  n = m.nlin[p]; B = ARRHENIUS(m.Flin[p], m.Alin[p], n, m.Qlin[p], m.Vlin[p], m.flin[p], m.rlin[p], m.alin[p]);
  CHECK("diffusion", EQS(lin, m.linv[p] ? pow(2.0*B, -n)*pow(GT, n)*pow(d, -m.mlin[p]) : 0.0, 1e3));
  n = m.ngbs[p]; B = ARRHENIUS(m.Fgbs[p], m.Agbs[p], n, m.Qgbs[p], m.Vgbs[p], m.fgbs[p], m.rgbs[p], m.agbs[p])*pow(d, m.mgbs[p]/n);
  CHECK("gbs", EQS(gbs, m.gbsv[p] ? pow(2.0*B, -n)*pow(GT, n) : 0.0, 1e3));
  double g = m.Gexp[p], ST = m.Qexp[p]/m.R/Tk*2.0*g*(1.0-g), N = ST + m.nexp[p];
  B = pow(pow(2.0, 1.0-ST-m.nexp[p])/pow(sqrt(3.0), N+1.0), 1.0/N)*(pow(g*m.Sexp[p], ST/N)/pow(m.Eexp[p]*exp(-m.Qexp[p]/m.R/Tk*pow(1.0-g, 2.0)), 1.0/N));
  CHECK("peierls", EQS(ex, m.expv[p] && T < (1200.0+273.15)/300.0 ? pow(2.0*B, -N)*pow(GT, N) : 0.0, 1e3));
}
void H_viscous(void) {
  VISCOUS;
  CHECK("stress", EQ(Txx, 2.0*GETA*Exx) && EQ(Tzz, 2.0*GETA*Ezz) && EQ(Txz, 2.0*GETA*Exz));
  CHECK("cutoff", EQ(etaVE, GETA < model.min_eta ? model.min_eta : GETA > model.max_eta ? model.max_eta : GETA));
  CHECK("balance", fabs((E - elastic*GT/(2.0*G*dt) - (pwl + ex + lin + gbs + cst))/E) <= SMALL);
  double xx = (Txx - Txx0)/(2*G*dt), zz = (Tzz - Tzz0)/(2*G*dt), xz = (Txz - Txz0)/(2*G*dt);
  CHECK("elastic", EQ(el, elastic ? sqrt(0.5*(xx*xx + zz*zz + (xx+zz)*(xx+zz)) + xz*xz) : 0.0));
  CHECK("unyielded", pl == 0.0 && dp == 0.0 && Pc == P && Ov == 0.0);
  CHECK("volumetric", EQ(de, -(P - P0)/(K*dt)) && dr == 0.0);
  CHECK("carried", X1 == X0 && d1 == m.gs_ref[p]);
  CHECK("physical", eta >= model.min_eta && eta <= model.max_eta);
  CHECK("density", EQ(rho, centroid ? EvaluateDensity(p, Tk, P, X0, phi, &model, &m) : 0.0));
}

/* ---- plasticity: beyond the yield stress the stress is returned to the yield surface at the corrected pressure ---- */
#ifdef VSPEC_SYM
#define TRIAL GETA = ND_DP("geta", 0, 1); GT = 2.0*GETA*E
#else
#define TRIAL ASSUME(fabs(Exx) > 0.05); m.plast[p] = 0; VISCOSITY; GETA = Txx/2.0/Exx; GT = 2.0*GETA*E; m.plast[p] = 1
#endif
#define PLASTIC(EL) MATERIAL; OPTION("noexit", 0); OPTION("ratbranch", 1); \
  model.elastic = EL; model.step = ND_IR("istep", 1, 3); m.cstv[p] = 1; m.pwlv[p] = m.linv[p] = m.gbsv[p] = m.expv[p] = 0; \
  m.plast[p] = 1; m.n_vp[p] = 1.0; double eta_vp = m.eta_vp[p] = ND_DG("eta_vp", 0, 1), Slim = m.Slim[p] = ND_DP("Slim", 0.5, 2); \
  ASSUME(sin(fric) >= 0 && cos(fric) >= 0 && sin(dil) >= 0); \
  NATIVE(if (E < 0.6) v_reject();) double K = EL ? 1.0/beta : 1e10, sd = EL ? sin(dil) : 0.0, Ty = C*cos(fric) + P*sin(fric), sf = sin(fric); \
  TRIAL
#define RETURN double F = GT - Ty; ASSUME(F > 1e-17); double g = F/(GETA + eta_vp + K*model.dt*sf*sd), Tc = GT - GETA*g
#define YIELDED(eta) \
    double Tr = Ty + (Pc - P)*sf + eta_vp*2.0*pl; \
    CHECK("yield", EQ(Txx*E, Tr*Exx) && EQ(Tzz*E, Tr*Ezz) && EQ(Txz*E, Tr*Exz)); \
    CHECK("rate", EQ(pl, g/2.0)); \
    CHECK("pressure", EQ(Pc, P + K*model.dt*sd*g) && EQ(dp, sd*g)); \
    CHECK("overstress", EQ(Ov, eta_vp*g)); \
    CHECK("cutoff", etaVE >= model.min_eta && etaVE <= model.max_eta)

void H_yield(void) {
  PLASTIC(1); ASSUME(!(Slim < Ty)); RETURN; ASSUME(!(Tc < 0.0));
  double eta = VISCOSITY;
  YIELDED(eta);
}
void H_yield_viscous(void) {
  PLASTIC(0); ASSUME(!(Slim < Ty)); RETURN; ASSUME(!(Tc < 0.0));
  double eta = VISCOSITY;
  YIELDED(eta);
}
void H_yield_cap(void) {
  PLASTIC(1); ASSUME(Slim < Ty); Ty = Slim; sf = 0.0; RETURN; ASSUME(!(Tc < 0.0));
  double eta = VISCOSITY;
  YIELDED(eta);
}
void H_tension(void) {
  PLASTIC(1); NATIVE(P = ND_D("Pneg", -3, -1); Ty = C*cos(fric) + P*sin(fric);) ASSUME(!(Slim < Ty)); RETURN; ASSUME(Tc < 0.0);
  double eta = VISCOSITY;
  CHECK("tension", EQ(Txx*E, 1e5/sc.S*Exx) && EQ(Tzz*E, 1e5/sc.S*Ezz) && EQ(Txz*E, 1e5/sc.S*Exz) && Pc == P);
}
void H_below_yield(void) {
  PLASTIC(1);
  double F = GT - (Slim < Ty ? Slim : Ty); ASSUME(!(F > 1e-17));
  double eta = VISCOSITY;
  CHECK("trial", EQ(Txx, 2.0*GETA*Exx) && EQ(Tzz, 2.0*GETA*Ezz) && EQ(Txz, 2.0*GETA*Exz));
  CHECK("unyielded", pl == 0.0 && Pc == P && dp == 0.0 && Ov == 0.0);
  CHECK("viscosity", EQ(etaVE, GETA < model.min_eta ? model.min_eta : GETA > model.max_eta ? model.max_eta : GETA));
}

/* ---- mixture of two constant viscosities: arithmetic, harmonic or geometric mean by composition ---- */
void H_mixture(void) {
  OPTION("noexit", 0); MATERIAL;
  ASSUME(p != p2);
  m.cstv[p] = 1; m.pwlv[p] = m.linv[p] = m.gbsv[p] = m.expv[p] = 0;
  int avg = model.diffuse_avg = ND_IR("avg", 0, 2);
  model.diffuse_X = ND_IR("mix", 0, 1); m.phase_mix[p] = 1; m.phase_two[p] = p2; m.eta0[p2] = ND_DP("eta0b", 0.5, 2);
  NATIVE(ASSUME(fabs(Exx) > 0.05);)
  double eta = VISCOSITY;
  NATIVE(GETA = Txx/2.0/Exx; GT = 2.0*GETA*E;)
  double a = IN_S("eta0"), b = IN_S("eta0b");
  double mix = !model.diffuse_X ? a : avg == 0 ? X0*a + (1-X0)*b : avg == 1 ? 1.0/(X0/a + (1-X0)/b) : exp(X0*log(a) + (1-X0)*log(b));
  CHECK("mean", EQ(cst, GT/2.0/mix));
}

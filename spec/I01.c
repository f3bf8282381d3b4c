#include "vspec.h"

/* user functions: distinct values per field, position, phase, temperature */
static int    f_phase(MdoodzInput *in, Coordinates c) { return c.x > 0.0 ? (c.z > 0.0 ? 3 : 2) : (c.z > c.x ? 1 : 0); }
static double f_T(MdoodzInput *in, Coordinates c) { return 1.0 + 2.0*c.x + 3.0*c.z; }
static int    f_adj(MdoodzInput *in, Coordinates c, double T, int ph) { return T > 1.5 ? (ph == 2 ? 4 : ph) : (ph == 1 ? 5 : ph); }
static int    f_dual(MdoodzInput *in, Coordinates c, int ph) { return ph + (c.z > 0.5 ? 2 : 1); }
static double f_vx(MdoodzInput *in, Coordinates c) { return 5.0*c.x - c.z; }
static double f_vz(MdoodzInput *in, Coordinates c) { return 7.0*c.x + c.z; }
#define FP(name, a, b, d) static double name(MdoodzInput *in, Coordinates c, int ph) { return a*c.x + b*c.z + d*ph; }
FP(f_d, 1.0, 2.0, 0.5) FP(f_phi, 3.0, 1.0, 0.25) FP(f_rho, 5.0, 2.0, 1.5) FP(f_X, 7.0, 3.0, 2.5) FP(f_P, 2.0, 9.0, 3.5)
FP(f_txx, 4.0, 9.0, 4.5) FP(f_tzz, 6.0, 8.0, 5.5) FP(f_txz, 8.0, 5.0, 6.5) FP(f_noise, 9.0, 4.0, 7.5)
static Tensor2D f_F(MdoodzInput *in, Coordinates c, int ph) { Tensor2D F; F.xx = c.x + 1.0; F.xz = c.z + 2.0*ph; F.zx = 3.0*c.x; F.zz = c.z - 4.0; F.yy = 1.0; return F; }
static double f_ang(MdoodzInput *in, Coordinates c, int ph, double pre) { return 11.0*c.x + 13.0*c.z + 0.75*ph; }

#define MARK MdoodzInput in; memset(&in, 0, sizeof in); NEW_MARKERS(P); SetParticles_ff f; memset(&f, 0, sizeof f); \
  int n = P.Nb_part = ND_I("n", 1, 20); \
  P.x = NDARR("x", n, -2, 2); P.z = NDARR("z", n, -2, 2); P.phase = ARR_I("phase", n); P.dual = ARR_I("dual", n); \
  P.T = ARR_D("T", n); P.Vx = ARR_D("Vx", n); P.Vz = ARR_D("Vz", n); P.d = ARR_D("d", n); P.phi = ARR_D("phi", n); P.rho = ARR_D("rho", n); \
  P.X = ARR_D("X", n); P.P = ARR_D("P", n); P.sxxd = ARR_D("sxxd", n); P.szzd = ARR_D("szzd", n); P.sxz = ARR_D("sxz", n); P.noise = ARR_D("noise", n); \
  P.Fxx = NDARR("Fxx", n, -1, 1); P.Fxz = NDARR("Fxz", n, -1, 1); P.Fzx = NDARR("Fzx", n, -1, 1); P.Fzz = NDARR("Fzz", n, -1, 1); P.aniso_angle = NDARR("ang", n, -1, 1); \
  double e = in.model.bkg_strain_rate = ND_D("eps", -1, 1), sT = in.scaling.T = ND_DP("sT", 0, 2); \
  in.model.finite_strain = ND_IR("fs", 0, 1); in.model.marker_aniso_angle = ND_IR("aa", 0, 1); in.model.Nb_phases = 8; \
  in.model.save_initial_markers = 0; in.model.load_initial_markers = 0; in.geometry = NULL; \
  for (int p = 0; p < 20; p++) in.materials.rho[p] = 100.0 + p

void H_markers_user(void) {
  MARK;
  f.SetPhase = f_phase; f.SetTemperature = f_T; f.AdjustPhaseToTemperature = f_adj; f.SetDualPhase = f_dual; f.SetHorizontalVelocity = f_vx; f.SetVerticalVelocity = f_vz;
  f.SetGrainSize = f_d; f.SetPorosity = f_phi; f.SetDensity = f_rho; f.SetXComponent = f_X; f.SetPressure = f_P; f.SetTxx = f_txx; f.SetTzz = f_tzz; f.SetTxz = f_txz;
  f.SetNoise = f_noise; f.SetDefGrad = f_F; f.SetAnisoAngle = f_ang;
  SetParticles(f, &in, &P);
  FORALL(k, 0, n) {
    Coordinates c; c.x = IN_D("x", k); c.z = IN_D("z", k);
    int ph = f_adj(&in, c, f_T(&in, c), f_phase(&in, c));
    CHECK("position", P.x[k] == c.x && P.z[k] == c.z);
    CHECK("phase", P.phase[k] == ph);
    CHECK("dual", P.dual[k] == f_dual(&in, c, ph));
    CHECK("T", EQ(P.T[k], f_T(&in, c)));
    CHECK("Vx", EQ(P.Vx[k], f_vx(&in, c)));
    CHECK("Vz", EQ(P.Vz[k], f_vz(&in, c)));
    CHECK("d", EQ(P.d[k], f_d(&in, c, ph)));
    CHECK("phi", EQ(P.phi[k], f_phi(&in, c, ph)));
    CHECK("rho", EQ(P.rho[k], f_rho(&in, c, ph)));
    CHECK("X", EQ(P.X[k], f_X(&in, c, ph)));
    CHECK("P", EQ(P.P[k], f_P(&in, c, ph)));
    CHECK("sxxd", EQ(P.sxxd[k], f_txx(&in, c, ph)));
    CHECK("szzd", EQ(P.szzd[k], f_tzz(&in, c, ph)));
    CHECK("sxz", EQ(P.sxz[k], f_txz(&in, c, ph)));
    CHECK("noise", EQ(P.noise[k], f_noise(&in, c, ph)));
    Tensor2D F = f_F(&in, c, ph);
    int s = in.model.finite_strain;
    CHECK("Fxx", EQ(P.Fxx[k], s ? F.xx : IN_D("Fxx", k)));
    CHECK("Fxz", EQ(P.Fxz[k], s ? F.xz : IN_D("Fxz", k)));
    CHECK("Fzx", EQ(P.Fzx[k], s ? F.zx : IN_D("Fzx", k)));
    CHECK("Fzz", EQ(P.Fzz[k], s ? F.zz : IN_D("Fzz", k)));
    CHECK("angle", EQ(P.aniso_angle[k], in.model.marker_aniso_angle ? f_ang(&in, c, ph, 0.0) : IN_D("ang", k)));
  }
}

void H_markers_default(void) {
  MARK;
  SetParticles(f, &in, &P);
  FORALL(k, 0, n) {
    CHECK("phase", P.phase[k] == 0 && P.dual[k] == 0);
    CHECK("T", EQ(P.T[k], 273.15/sT));
    CHECK("Vx", EQ(P.Vx[k], -e*IN_D("x", k)));
    CHECK("Vz", EQ(P.Vz[k], e*IN_D("z", k)));
    CHECK("rho", P.rho[k] == 100.0);
    CHECK("zero", P.d[k] == 0 && P.phi[k] == 0 && P.X[k] == 0 && P.P[k] == 0 && P.sxxd[k] == 0 && P.szzd[k] == 0 && P.sxz[k] == 0 && P.noise[k] == 0);
    int s = in.model.finite_strain;
    CHECK("F", P.Fxx[k] == (s ? 1.0 : IN_D("Fxx", k)) && P.Fxz[k] == (s ? 0.0 : IN_D("Fxz", k)) && P.Fzx[k] == (s ? 0.0 : IN_D("Fzx", k)) && P.Fzz[k] == (s ? 1.0 : IN_D("Fzz", k)));
    CHECK("angle", P.aniso_angle[k] == IN_D("ang", k));
  }
}
/* phases decided by the user alone: default dual phase and density follow the phase */
void H_markers_phase(void) {
  MARK;
  f.SetPhase = f_phase;
  SetParticles(f, &in, &P);
  FORALL(k, 0, n) {
    Coordinates c; c.x = IN_D("x", k); c.z = IN_D("z", k);
    int ph = f_phase(&in, c);
    CHECK("phase", P.phase[k] == ph);
    CHECK("dual", P.dual[k] == ph);
    CHECK("rho", P.rho[k] == 100.0 + ph);
  }
}

/* ---- initial topography ---- */
static double t_z(MdoodzInput *in, double x) { return 3.0*x + 0.5; }
static int t_ph(MdoodzInput *in, double x) { return x > 0.0 ? 4 : 2; }
void H_topo(void) {
  MdoodzInput in; memset(&in, 0, sizeof in); NEW_MARKERS(C); BuildInitialTopography_ff f; memset(&f, 0, sizeof f);
  int n = C.Nb_part = ND_I("n", 1, 20);
  double L = in.scaling.L = ND_DP("L", 0, 10);
  C.x = NDARR("x", n, -2, 2); C.z = ARR_D("z", n); C.phase = ARR_I("ph", n);
  f.SetSurfaceZCoord = t_z; f.SetSurfacePhase = t_ph;
  BuildInitialTopography(f, &in, &C);
  FORALL(k, 0, n) { CHECK("x", C.x[k] == IN_D("x", k)); CHECK("z", EQ(C.z[k], 3.0*IN_D("x", k) + 0.5)); CHECK("phase", C.phase[k] == (IN_D("x", k) > 0.0 ? 4 : 2)); }
}
void H_topo_default(void) {
  MdoodzInput in; memset(&in, 0, sizeof in); NEW_MARKERS(C); BuildInitialTopography_ff f; memset(&f, 0, sizeof f);
  int n = C.Nb_part = ND_I("n", 1, 20);
  double L = in.scaling.L = ND_DP("L", 0, 10);
  C.x = NDARR("x", n, -2, 2); C.z = ARR_D("z", n); C.phase = ARR_I("ph", n);
  BuildInitialTopography(f, &in, &C);
  FORALL(k, 0, n) { CHECK("z", EQ(C.z[k], 1000.0/L)); CHECK("phase", C.phase[k] == 0); }
}

/* ---- inclusion shapes ---- */
#define PIV 3.14159265358979323846
void H_ellipse(void) {
  Ellipse E; Coordinates c;
  c.x = ND_D("x", -2, 2); c.z = ND_D("z", -2, 2);
  E.centreX = ND_D("cx", -1, 1); E.centreZ = ND_D("cz", -1, 1); E.angle = ND_D("angle", -180, 180); E.radiusX = ND_DP("rx", 0, 4); E.radiusZ = ND_DP("rz", 0, 4);
  double L = ND_DP("L", 0, 2), th = E.angle*M_PI/180.0;
  int r = IsEllipseCoordinates(c, E, L);
  double dx = c.x - E.centreX/L, dz = c.z - E.centreZ/L, a = (dx*cos(th) - dz*sin(th))/(0.5*E.radiusX/L), b = (dx*sin(th) + dz*cos(th))/(0.5*E.radiusZ/L);
  NATIVE(ASSUME(fabs(a*a + b*b - 1.0) > 1e-6);)
  CHECK("inside", (r != 0) == (a*a + b*b < 1.0));
}
void H_rectangle(void) {
  Rectangle R; Coordinates c;
  c.x = ND_D("x", -2, 2); c.z = ND_D("z", -2, 2);
  R.centreX = ND_D("cx", -1, 1); R.centreZ = ND_D("cz", -1, 1); R.angle = ND_D("angle", -3, 3); R.sizeX = ND_DP("sx", 0, 4); R.sizeZ = ND_DP("sz", 0, 4);
  double L = ND_DP("L", 0, 2), th = R.angle;
  int r = IsRectangleCoordinates(c, R, L);
  double dx = c.x - R.centreX/L, dz = c.z - R.centreZ/L, a = dx*cos(th) - dz*sin(th), b = dx*sin(th) + dz*cos(th), hx = 0.5*R.sizeX/L, hz = 0.5*R.sizeZ/L;
  NATIVE(ASSUME(fabs(fabs(a) - hx) > 1e-6 && fabs(fabs(b) - hz) > 1e-6);)
  CHECK("inside", (r != 0) == (a >= -hx && a <= hx && b >= -hz && b <= hz));
}
/* ---- a marker phase outside the declared phases stops the set-up ---- */
void H_phase_id(void) {
  int ph = ND_IN("ph", -1, 12), n = ND_I("n", 1, 10);
  OPTION("noexit", 0);
  ValidatePhase(ph, n);
  CHECK("declared", ph < n);
}

/* ---- initial marker lattice: every cell holds its own regular lattice of markers ---- */
void H_lattice(void) {
  NEW_GRID(mesh); NEW_MARKERS(P); NEW_PARAMS(model); NEW_SURFACE(topo); NEW_SCALE(sc);
  int Nx = mesh.Nx = ND_I("Nx", 2, 5), Nz = mesh.Nz = ND_I("Nz", 2, 5), px = P.Nx_part = ND_I("px", 1, 4), pz = P.Nz_part = ND_I("pz", 1, 4);
  double dx = mesh.dx = ND_DP("dx", 0, 1), dz = mesh.dz = ND_DP("dz", 0, 1);
  mesh.xg_coord = NDARR("xg", Nx, -1, 1); mesh.zg_coord = NDARR("zg", Nz, -1, 1);
  int n = (Nx-1)*(Nz-1)*px*pz;
  P.x = ARR_D("x", n); P.z = ARR_D("z", n);
  model.free_surface = 0; model.initial_noise = 0;
  PutPartInBox(&P, &mesh, model, topo, sc);
  CHECK("count", P.Nb_part == n);
  FORALL(j, 0, Nx-1) FORALL(i, 0, Nz-1) FORALL(kj, 0, px) FORALL(ki, 0, pz) {
    int c = ((j*(Nz-1) + i)*px + kj)*pz + ki;
    CHECK("x", EQ(P.x[c], IN_D("xg", j) + dx/px*(kj + 0.5)));
    CHECK("z", EQ(P.z[c], IN_D("zg", i) + dz/pz*(ki + 0.5)));
  }
}

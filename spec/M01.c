#include "vspec.h"
#include "contracts.h"
#ifdef VSPEC_SYM
double fieldx(double x, double z), fieldz(double x, double z);      /* any velocity field */
/* proved above: the result depends on the marker's own position only, and is zero for an inactive marker */
void CONTRACT_V2P(double *Vxm, double *Vzm, markers *particles, double *Vx, double *Vz, double *xg, double *zg, double *zvx, double *xvz, int Nxg, int Nzg, int NzVx, int NxVz, char *tagVx, char *tagVz, double dx, double dz, int k, int TarasCorr) {
  *Vxm = particles->phase[k] == -1 ? 0.0 : fieldx(particles->x[k], particles->z[k]);
  *Vzm = particles->phase[k] == -1 ? 0.0 : fieldz(particles->x[k], particles->z[k]);
}
#endif
#define AIRU(t) ((t) == 30)

/* ---- a marker that leaves the box is deactivated, or wraps around in x when periodic ---- */
static double wrapx(double x, double lo, double hi, int per) { return !per ? x : x < lo ? hi - (lo - x) : x > hi ? lo + (x - hi) : x; }
static int outside(double x, double z, params *m) {
  return z < m->zmin || z > m->zmax || (!m->periodic_x && (x < m->xmin || x > m->xmax));
}
#define BOXM NEW_PARAMS(model); NEW_MARKERS(P); \
  model.xmin = ND_D("xmin", -2, -1); model.xmax = ND_D("xmax", 1, 2); model.zmin = ND_D("zmin", -2, -1); model.zmax = ND_D("zmax", 1, 2); \
  ASSUME(model.xmin < model.xmax && model.zmin < model.zmax); model.periodic_x = ND_IR("per", 0, 1); \
  int n = P.Nb_part = ND_I("n", 1, 30); double L = model.xmax - model.xmin; \
  double *x = P.x = NDARR("x", n, -4, 4), *z = P.z = NDARR("z", n, -4, 4); int *ph = P.phase = NDARR_I("ph", n, -1, 9)

void H_isout(void) {
  BOXM;
  isout(&P, model);
  FORALL(k, 0, n) {
    double x0 = IN_D("x", k), z0 = IN_D("z", k);
    CHECK("phase", ph[k] == (outside(x0, z0, &model) ? -1 : IN_I("ph", k)));
    CHECK("x", IMPLIES(x0 >= model.xmin - L && x0 <= model.xmax + L, EQ(x[k], wrapx(x0, model.xmin, model.xmax, model.periodic_x))));
    CHECK("inside", IMPLIES(model.periodic_x && x0 >= model.xmin - L && x0 <= model.xmax + L, LE(model.xmin, x[k]) && LE(x[k], model.xmax)));
    CHECK("z", z[k] == z0);
  }
}
void H_isoutpart(void) {
  BOXM;
  int k = ND_IR("k", 0, n-1);
  isoutPart(&P, &model, k);
  double x0 = IN_D("x", k), z0 = IN_D("z", k);
  CHECK("phase", ph[k] == (outside(x0, z0, &model) ? -1 : IN_I("ph", k)));
  CHECK("x", IMPLIES(x0 >= model.xmin - L && x0 <= model.xmax + L, EQ(x[k], wrapx(x0, model.xmin, model.xmax, model.periodic_x))));
  CHECK("z", z[k] == z0);
  FORALL(q, 0, n) CHECK("others", IMPLIES(q != k, x[q] == IN_D("x", q) && z[q] == IN_D("z", q) && ph[q] == IN_I("ph", q)));
}

/* ---- velocity of a marker: bilinear between the four surrounding velocity nodes ---- */
#define MESHV(CORR) VERIFIES(V2P); NEW_MARKERS(P); int Nx = ND_I("Nx", 3, 6), Nz = ND_I("Nz", 3, 6); int m = ND_IR("m", 0, 4); \
  double dx = ND_DP("dx", 0, 1), dz = ND_DP("dz", 0, 1), x0 = ND_D("x0", -1, 1), z0 = ND_D("z0", -1, 1); \
  double *xg = ARR_D("xg", Nx), *zg = ARR_D("zg", Nz), *zvx = ARR_D("zvx", Nz+1), *xvz = ARR_D("xvz", Nx+1); \
  for (int k = 0; k < Nx; k++) xg[k] = x0 + k*dx; \
  for (int k = 0; k < Nz; k++) zg[k] = z0 + k*dz; \
  for (int k = 0; k < Nz+1; k++) zvx[k] = z0 + (k-0.5)*dz; \
  for (int k = 0; k < Nx+1; k++) xvz[k] = x0 + (k-0.5)*dx; \
  double *u = NDARR("u", Nx*(Nz+1), -1, 1), *v = NDARR("v", (Nx+1)*Nz, -1, 1); \
  P.x = NDARR("mx", 5, -1, 1); P.z = NDARR("mz", 5, -1, 1); P.phase = NDARR_I("ph", 5, 0, 9); \
  double s = ND_DP("s", 0, 1), t = ND_DP("t", 0, 1); ASSUME(s <= 1 && t <= 1); \
  NATIVE(ASSUME(s > 0.001 && s < 0.999 && t > 0.001 && t < 0.999 && (s < 0.499 || s > 0.501) && (t < 0.499 || t > 0.501));) \
  double Vx, Vz; \
  char *tu = NDARR_C("tu", Nx*(Nz+1), CORR ? 0 : 29, CORR ? 0 : 30), *tv = NDARR_C("tv", (Nx+1)*Nz, CORR ? 0 : 29, CORR ? 0 : 30)
static double bil(double *f, int c, int X, double s, double t) { return (1-s)*(1-t)*f[c] + s*(1-t)*f[c+1] + (1-s)*t*f[c+X] + s*t*f[c+X+1]; }

/* horizontal velocity: cell (i,j) of the u-grid; vertical: cell (i,j) of the v-grid */
void H_v2p_u(void) {
  MESHV(0);
  int i = ND_IR("i", 0, Nx-2), j = ND_IR("j", 0, Nz-1);
  P.x[m] = x0 + (i+s)*dx; P.z[m] = z0 + (j+t-0.5)*dz;
  V2P(&Vx, &Vz, &P, u, v, xg, zg, zvx, xvz, Nx, Nz, Nz+1, Nx+1, tu, tv, dx, dz, m, 0);
  int c = i + j*Nx;
  CHECK("u-rock", IMPLIES(!AIRU(tu[c]) && !AIRU(tu[c+1]) && !AIRU(tu[c+Nx]) && !AIRU(tu[c+Nx+1]), EQS(Vx, bil(u, c, Nx, s, t), 50)));
  double a = u[c], b = u[c+1], p = AIRU(tu[c+Nx]) ? a : u[c+Nx], q = AIRU(tu[c+Nx+1]) ? b : u[c+Nx+1];
  CHECK("u-surface", IMPLIES(!AIRU(tu[c]) && !AIRU(tu[c+1]), EQS(Vx, (1-s)*(1-t)*a + s*(1-t)*b + (1-s)*t*p + s*t*q, 50)));
}
void H_v2p_v(void) {
  MESHV(0);
  int i = ND_IR("i", 0, Nx-1), j = ND_IR("j", 0, Nz-2);
  P.x[m] = x0 + (i+s-0.5)*dx; P.z[m] = z0 + (j+t)*dz;
  V2P(&Vx, &Vz, &P, u, v, xg, zg, zvx, xvz, Nx, Nz, Nz+1, Nx+1, tu, tv, dx, dz, m, 0);
  int c = i + j*(Nx+1), X = Nx+1;
  CHECK("v-rock", IMPLIES(!AIRU(tv[c]) && !AIRU(tv[c+1]) && !AIRU(tv[c+X]) && !AIRU(tv[c+X+1]), EQS(Vz, bil(v, c, X, s, t), 50)));
  double a = v[c], b = v[c+1], p = AIRU(tv[c+X]) ? a : v[c+X], q = AIRU(tv[c+X+1]) ? b : v[c+X+1];
  CHECK("v-surface", IMPLIES(!AIRU(tv[c]) && !AIRU(tv[c+1]), EQS(Vz, (1-s)*(1-t)*a + s*(1-t)*b + (1-s)*t*p + s*t*q, 50)));
}
/* conservative interpolation: curvature correction from the nearer outer column (row) */
void H_v2p_uc(void) {
  MESHV(1);
  int i = ND_IR("i", 0, Nx-2), j = ND_IR("j", 0, Nz-1);
  P.x[m] = x0 + (i+s)*dx; P.z[m] = z0 + (j+t-0.5)*dz;
  V2P(&Vx, &Vz, &P, u, v, xg, zg, zvx, xvz, Nx, Nz, Nz+1, Nx+1, tu, tv, dx, dz, m, 1);
  int c = i + j*Nx, N = c + Nx;
  double k0 = 0.0, k1 = 0.0;
  if (s >= 0.5) { if (i < Nx-2) { k0 = u[c] - 2*u[c+1] + u[c+2]; k1 = u[N] - 2*u[N+1] + u[N+2]; } }
  else if (i > 0) { k0 = u[c-1] - 2*u[c] + u[c+1]; k1 = u[N-1] - 2*u[N] + u[N+1]; }
  CHECK("u-conservative", EQS(Vx, bil(u, c, Nx, s, t) + 0.5*(s-0.5)*(s-0.5)*((1-t)*k0 + t*k1), 50));
}
void H_v2p_vc(void) {
  MESHV(1);
  int i = ND_IR("i", 0, Nx-1), j = ND_IR("j", 0, Nz-2);
  P.x[m] = x0 + (i+s-0.5)*dx; P.z[m] = z0 + (j+t)*dz;
  V2P(&Vx, &Vz, &P, u, v, xg, zg, zvx, xvz, Nx, Nz, Nz+1, Nx+1, tu, tv, dx, dz, m, 1);
  int X = Nx+1, c = i + j*X;
  double k0 = 0.0, k1 = 0.0;
  if (t >= 0.5) { if (j < Nz-2) { k0 = v[c] - 2*v[c+X] + v[c+2*X]; k1 = v[c+1] - 2*v[c+X+1] + v[c+2*X+1]; } }
  else if (j > 0) { k0 = v[c-X] - 2*v[c] + v[c+X]; k1 = v[c-X+1] - 2*v[c+1] + v[c+X+1]; }
  CHECK("v-conservative", EQS(Vz, bil(v, c, X, s, t) + 0.5*(t-0.5)*(t-0.5)*((1-s)*k0 + s*k1), 50));
}
void H_v2p_inactive(void) {
  MESHV(0);
  P.phase[m] = -1; P.x[m] = ND_D("px", -4, 4); P.z[m] = ND_D("pz", -4, 4);
  V2P(&Vx, &Vz, &P, u, v, xg, zg, zvx, xvz, Nx, Nz, Nz+1, Nx+1, tu, tv, dx, dz, m, 0);
  CHECK("zero", Vx == 0.0 && Vz == 0.0);
}

/* ---- fourth-order Runge-Kutta step through any velocity field ---- */
static void vel(double *a, double *b, double x, double z, params *model, grid *mesh) {
  NEW_MARKERS(Q);
  double qx[1], qz[1]; int qp[1];
  qx[0] = x; qz[0] = z; qp[0] = 0; Q.x = qx; Q.z = qz; Q.phase = qp;
  V2P(a, b, &Q, mesh->u_in, mesh->v_in, mesh->xg_coord, mesh->zg_coord, mesh->zvx_coord, mesh->xvz_coord, mesh->Nx, mesh->Nz, mesh->Nz+1, mesh->Nx+1, mesh->BCu.type, mesh->BCv.type, mesh->dx, mesh->dz, 0, model->conserv_interp);
}
void H_rk4(void) {
  BOXM; NEW_GRID(mesh); NEW_SCALE(scaling);
  int Nx = mesh.Nx = ND_I("Nx", 3, 6), Nz = mesh.Nz = ND_I("Nz", 3, 6), per = model.periodic_x;
  mesh.dx = (model.xmax - model.xmin)/(Nx-1); mesh.dz = (model.zmax - model.zmin)/(Nz-1);
  mesh.xg_coord = ARR_D("xg", Nx); mesh.zg_coord = ARR_D("zg", Nz); mesh.zvx_coord = ARR_D("zvx", Nz+1); mesh.xvz_coord = ARR_D("xvz", Nx+1);
  for (int k = 0; k < Nx; k++) mesh.xg_coord[k] = model.xmin + k*mesh.dx;
  for (int k = 0; k < Nz; k++) mesh.zg_coord[k] = model.zmin + k*mesh.dz;
  for (int k = 0; k < Nz+1; k++) mesh.zvx_coord[k] = model.zmin + (k-0.5)*mesh.dz;
  for (int k = 0; k < Nx+1; k++) mesh.xvz_coord[k] = model.xmin + (k-0.5)*mesh.dx;
  mesh.u_in = NDARR("u", Nx*(Nz+1), -1, 1); mesh.v_in = NDARR("v", (Nx+1)*Nz, -1, 1);
  mesh.BCu.type = NDARR_C("tu", Nx*(Nz+1), -1, -1); mesh.BCv.type = NDARR_C("tv", (Nx+1)*Nz, -1, -1);
  model.conserv_interp = ND_IR("ci", 0, 1);
  double dt = model.dt = ND_DP("dt", 0, 1.5);
  P.Vx = NDARR("pvx", n, -1, 1); P.Vz = NDARR("pvz", n, -1, 1);
  int k = ND_IR("k", 0, n-1);
  RogerGuntherII(&P, model, mesh, 1, scaling);
  double X0 = IN_D("x", k), Z0 = IN_D("z", k), lo = model.xmin, hi = model.xmax;
  double ax, az, bx, bz, cx, cz, ex, ez, x1, z1, x2, z2, x3, z3;
  vel(&ax, &az, X0, Z0, &model, &mesh);
  x1 = X0 + 0.5*dt*ax; z1 = Z0 + 0.5*dt*az; int o1 = outside(x1, z1, &model); double w1 = wrapx(x1, lo, hi, per);
  vel(&bx, &bz, w1, z1, &model, &mesh);
  x2 = X0 + 0.5*dt*bx; z2 = Z0 + 0.5*dt*bz; int o2 = outside(x2, z2, &model); double w2 = wrapx(x2, lo, hi, per);
  vel(&cx, &cz, w2, z2, &model, &mesh);
  x3 = X0 + dt*cx; z3 = Z0 + dt*cz; int o3 = outside(x3, z3, &model); double w3 = wrapx(x3, lo, hi, per);
  vel(&ex, &ez, w3, z3, &model, &mesh);
  double vx = (ax + 2*bx + 2*cx + ex)/6, vz = (az + 2*bz + 2*cz + ez)/6, x4 = X0 + dt*vx, z4 = Z0 + dt*vz;
  int act = IN_I("ph", k) != -1, onewrap = !per || (x1 >= lo-L && x1 <= hi+L && x2 >= lo-L && x2 <= hi+L && x3 >= lo-L && x3 <= hi+L && x4 >= lo-L && x4 <= hi+L);
  int in = act && !o1 && !o2 && !o3;
  NATIVE(double tol = 1e-9; ASSUME(fabs(x1-lo) > tol && fabs(x1-hi) > tol && fabs(x2-lo) > tol && fabs(x2-hi) > tol && fabs(x3-lo) > tol && fabs(x3-hi) > tol && fabs(x4-lo) > tol && fabs(x4-hi) > tol);)
  CHECK("moved-x", IMPLIES(in && onewrap, EQS(x[k], wrapx(x4, lo, hi, per), 50)));
  CHECK("moved-z", IMPLIES(in && onewrap, EQS(z[k], z4, 50)));
  CHECK("velocity", IMPLIES(in && onewrap, EQS(P.Vx[k], vx, 50) && EQS(P.Vz[k], vz, 50)));
  CHECK("kept", IMPLIES(in && onewrap && !outside(x4, z4, &model), ph[k] == IN_I("ph", k)));
  CHECK("deactivated", IMPLIES(act && onewrap && (o1 || o2 || o3 || outside(x4, z4, &model)), ph[k] == -1));
  CHECK("inactive", IMPLIES(!act, ph[k] == -1 && z[k] == IN_D("z", k)));
  CHECK("inactive-x", IMPLIES(!act && !per, x[k] == IN_D("x", k)));
}

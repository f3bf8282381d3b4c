#define USE_CONTRACT_ADD
#include "vspec.h"
#include "stokes.h"

/* The row that the assembly writes for an equation is an affine function of the unknowns. GX holds arbitrary
 * values of all unknowns (momentum equations first, then pressure); a row is judged by its value on them.
 * Contract of AddCoeff3 (proved in H_addcoeff): one entry (column, coefficient) is appended, or, for a node with a
 * prescribed value, the right-hand side is reduced. Hence the value of the row grows by coefficient times unknown.
 * A[0] carries the value of the row so far, J[0] the first unknown of the block. */
static double *GX;
static int prescribed(int t) { return t == 0 || t == 31 || t == 11 || t == 13; }
#ifdef USE_CONTRACT_ADD
void CONTRACT_AddCoeff3(int *J, double *A, int eqn, int jeq, int *nnzc, double coeff, int type, double val, double *rhs) {
  int p = prescribed(type);
  rhs[eqn] -= p ? coeff*val : 0.0;
  A[0] += p ? 0.0 : coeff*GX[J[0] + jeq];
  *nnzc += p ? 0 : 1;
}
#endif
void H_addcoeff(void) {
  int n = ND_I("n", 0, 5), cap = n+1, E = ND_I("E", 1, 5), e = ND_IR("e", 0, E-1), j = ND_I("j", 0, 9), r = ND_IR("r", 0, 7), n0 = n;
  int t = r == 7 ? -12 : r == 6 ? 31 : tag(r == 6 ? 0 : r);
  double c = ND_D("c", -1, 1), v = ND_D("v", -1, 1);
  int *J = NDARR_I("J", cap, 0, 9); double *A = NDARR("A", cap, -1, 1), *rhs = NDARR("rhs", E, -1, 1);
  VERIFIES(AddCoeff3);
  AddCoeff3(J, A, e, j, &n, c, t, v, rhs);
  int p = prescribed(t);
  CHECK("count", n == (p ? n0 : n0+1));
  if (!p) { CHECK("column", J[n0] == j); CHECK("value", A[n0] == c); }
  FORALL(k, 0, n0) CHECK("row", J[k] == IN_I("J", k) && A[k] == IN_D("A", k));
  FORALL(k, 0, E) CHECK("rhs", EQ(rhs[k], IN_D("rhs", k) - (p && k == e ? c*v : 0.0)));
}

#ifndef VSPEC_SYM
/* native cross-check: mostly the tags that occur in practice */
static void usual(char *t, int n) { for (int i = 0; i < n; i++) { int v = t[i]; if (!(v == -12 || v == -2 || v == -1 || v == 0 || v == 2 || v == 11 || v == 13 || v == 30 || v == 31)) t[i] = v%3 ? -1 : v%4 ? 11 : 13; } }
#endif
/* tags are arbitrary: what is neither prescribed nor air is an unknown */
#define SYSTEM SYSTEM_(3, -12, 31, -1, 31, -1, 30)
#define SYSTEM_(n0, t0, t1, p0, p1, g0, g1) NEW_GRID(mesh); NEW_SPARSE(S); NEW_SPARSE(A); NEW_SPARSE(B); NEW_PARAMS(model); \
  int Nx = ND_I("Nx", n0, n0+3), Nz = ND_I("Nz", n0, n0+3), C = Nx-1, D = Nz-1, X = Nx+1; \
  mesh.Nx = Nx; mesh.Nz = Nz; model.Nx = Nx; model.Nz = Nz; \
  double dx = mesh.dx = ND_DP("dx", 0.1, 1), dz = mesh.dz = ND_DP("dz", 0.1, 1), vol = dx*dz; \
  int comp = ND_IR("comp", 0, 1), oop = model.out_of_plane = ND_IR("oop", 0, 1); double O = oop ? 1.5 : 1.0; \
  char *tu = mesh.BCu.type = NDARR_C("tu", Nx*(Nz+1), t0, t1), *tv = mesh.BCv.type = NDARR_C("tv", X*Nz, t0, t1), *tp = mesh.BCp.type = NDARR_C("tp", C*D, p0, p1), *tg = mesh.BCg.type = NDARR_C("tg", Nx*Nz, g0, g1); \
  NATIVE(usual(tu, Nx*(Nz+1)); usual(tv, X*Nz); usual(tp, C*D); usual(tg, Nx*Nz);) \
  double *vu = mesh.BCu.val = NDARR("vu", Nx*(Nz+1), -1, 1), *vv = mesh.BCv.val = NDARR("vv", X*Nz, -1, 1); mesh.BCp.val = NDARR("vp", C*D, -1, 1); \
  int M = S.neq_mom = ND_I("M", 1, 30), Q = ND_I("Q", 1, 20); \
  S.eqn_u = NDARR_I("eu", Nx*(Nz+1), 0, M-1); S.eqn_v = NDARR_I("ev", X*Nz, 0, M-1); S.eqn_p = NDARR_I("ep", C*D, M, M+Q-1); \
  GX = NDARR("GX", M+Q, -1, 1); \
  A.b = NDARR("bA", M, -1, 1); B.b = NDARR("bB", M, -1, 1); A.bbc = NDARR("cA", M, -1, 1); B.bbc = NDARR("cB", M, -1, 1); A.F = NDARR("F", M, -1, 1); \
  double *D11 = mesh.D11_n = NDARR_P("D11", C*D, 0.1, 1), *D22 = mesh.D22_n = NDARR_P("D22", C*D, 0.1, 1), *D33 = mesh.D33_s = NDARR_P("D33", Nx*Nz, 0.1, 1); \
  int nA[1], nB[1]; nA[0] = nB[0] = 0; int *ja = ARR_I("ja", 24), *jb = ARR_I("jb", 8); double *aa = ARR_D("aa", 24), *ab = ARR_D("ab", 8); \
  int *JA[1], *JB[1]; double *AA[1], *AB[1]; JA[0] = ja; JB[0] = jb; AA[0] = aa; AB[0] = ab; aa[0] = ab[0] = 0; ja[0] = 0; jb[0] = M; OPTION("linear", 1); OPTION("signs", 1); OPTION("sums", 1)

/* value of an unknown; nodes with a prescribed value do not change, air nodes carry none */
static int unknown(int t) { return !prescribed(t) && t != 30; }
static double UU(grid *m, SparseMat *S, int i) { return unknown(m->BCu.type[i]) ? GX[S->eqn_u[i]] : 0.0; }
static double VV(grid *m, SparseMat *S, int i) { return unknown(m->BCv.type[i]) ? GX[S->eqn_v[i]] : 0.0; }
static double PP(grid *m, SparseMat *S, int i) { return unknown(m->BCp.type[i]) ? GX[S->eqn_p[i]] : 0.0; }
#ifdef VSPEC_SYM
#define ROW(A, J, n, off) (A)[0]
#else
static double ROW(double *A, int *J, int n, int off) { double s = 0; for (int k = 0; k < n; k++) s += A[k]*GX[J[k] + off]; return s; }
#endif

/* ---- horizontal momentum ---- */
#define XNODE(i0, i1, tag) SYSTEM; int i = ND_IR("i", i0, i1), j = ND_IR("j", 1, Nz-1), c1 = i + j*Nx, c2 = i-1 + (j-1)*C, c3 = i + j*X, e = S.eqn_u[c1]; NATIVE(tu[c1] = tag;) ASSUME(tu[c1] == tag); \
  int p = tu[c1] == -2, pe = i + (j-1)*C, pw = p ? pe + C-1 : pe-1, uw = p ? c1+Nx-2 : c1-1, vw = p ? c3+Nx-1 : c3
#define XCALL(as, st) Xmomentum_InnerNodesDecoupled(&S, &A, &B, as, i, j, st, comp, om, 1, model, 1/dx, 1/dz, 1/(dx*dx), 1/(dz*dz), 1/(dx*dz), vol, &mesh, 0, c1, c2, c3, Nx, Nz, e, u, v, 0, JA, AA, nA, JB, AB, nB)
/* change of the shear stress at the vertex above (up) or below the node */
static double xshear(grid *m, SparseMat *S, int i, int j, int up, int west, int east, int vw, double dx, double dz) {
  int Nx = m->Nx, X = Nx+1, c = i + j*Nx, n = up ? c+Nx : c-Nx, g = up ? c : c-Nx, ve = i+1 + (up ? j : j-1)*X, w = up ? vw : vw-X, t = m->BCu.type[n];
  double uc = UU(m, S, c), du = (t == 13 ? 0.0 : t == 11 ? -2*uc : UU(m, S, n)-uc)*(up ? 1 : -1)/dz;
  double dv = west ? (m->BCv.type[w] == 11 ? 2*VV(m, S, ve)/dx : 0.0) : east ? (m->BCv.type[ve] == 11 ? -2*VV(m, S, w)/dx : 0.0) : (VV(m, S, ve)-VV(m, S, w))/dx;
  return m->BCg.type[g] == 30 ? 0.0 : m->D33_s[g]*(du+dv);
}
/* deviatoric stress of a cell from the velocities on its sides */
static double normal(grid *m, double *D, int c, double du, double dv, double O, int comp) { return m->BCp.type[c] != -1 ? 0.0 : D[c]*(du - (comp ? O*(du+dv)/3 : 0.0)); }
#define XEXPECT double tE = normal(&mesh, D11, pe, (UU(&mesh,&S,c1+1)-UU(&mesh,&S,c1))/dx, (VV(&mesh,&S,c3+1)-VV(&mesh,&S,c3+1-X))/dz, O, comp); \
  double tW = normal(&mesh, D11, pw, (UU(&mesh,&S,c1)-UU(&mesh,&S,uw))/dx, (VV(&mesh,&S,vw)-VV(&mesh,&S,vw-X))/dz, O, comp); \
  double sN = xshear(&mesh, &S, i, j, 1, 0, 0, vw, dx, dz), sS = xshear(&mesh, &S, i, j, 0, 0, 0, vw, dx, dz)
#define XMOM double om = 0, *u = 0, *v = 0; XCALL(1, 0); XEXPECT; \
  CHECK("stress", EQS(ROW(aa, ja, nA[0], 0), -vol*((tE-tW)/dx + (sN-sS)/dz), 50)); \
  CHECK("pressure", EQS(ROW(ab, jb, nB[0], M), vol*(PP(&mesh,&S,pe)-PP(&mesh,&S,pw))/dx, 50))
void H_xmom(void) { XNODE(1, Nx-2, -1); XMOM; }
void H_xmom_periodic(void) { XNODE(0, 0, -2); XMOM; }
/* stress boundary conditions: the half cell inside the box */
void H_xmom_west(void) {
  XNODE(0, 0, 2); double om = 0, *u = 0, *v = 0; XCALL(1, 0);
  double tE = normal(&mesh, D11, pe, (UU(&mesh,&S,c1+1)-UU(&mesh,&S,c1))/dx, (VV(&mesh,&S,c3+1)-VV(&mesh,&S,c3+1-X))/dz, O, comp);
  double sN = xshear(&mesh, &S, i, j, 1, 1, 0, vw, dx, dz), sS = xshear(&mesh, &S, i, j, 0, 1, 0, vw, dx, dz);
  CHECK("stress", EQS(ROW(aa, ja, nA[0], 0), -vol*(tE/dx + 0.5*(sN-sS)/dz), 50));
  CHECK("pressure", EQS(ROW(ab, jb, nB[0], M), vol*PP(&mesh,&S,pe)/dx, 50));
}
void H_xmom_east(void) {
  XNODE(Nx-1, Nx-1, 2); double om = 0, *u = 0, *v = 0; XCALL(1, 0);
  double tW = normal(&mesh, D11, pw, (UU(&mesh,&S,c1)-UU(&mesh,&S,uw))/dx, (VV(&mesh,&S,vw)-VV(&mesh,&S,vw-X))/dz, O, comp);
  double sN = xshear(&mesh, &S, i, j, 1, 0, 1, vw, dx, dz), sS = xshear(&mesh, &S, i, j, 0, 0, 1, vw, dx, dz);
  CHECK("stress", EQS(ROW(aa, ja, nA[0], 0), -vol*(-tW/dx + 0.5*(sN-sS)/dz), 50));
  CHECK("pressure", EQS(ROW(ab, jb, nB[0], M), -vol*PP(&mesh,&S,pw)/dx, 50));
}
/* free-surface stabilisation: the same term in the row and in the residual */
#define STAB double om = ND_DP("om", 0.1, 1), *u = NDARR("u", Nx*(Nz+1), -1, 1), *v = NDARR("v", X*Nz, -1, 1), dt = model.dt = ND_DP("dt", 0.1, 1); \
  double *rho = mesh.rho_n = NDARR("rho", C*D, -1, 1); mesh.gx = NDARR("gx", Nx*(Nz+1), -1, 1); mesh.gz = NDARR("gz", X*Nz, -1, 1)
#define STRESS mesh.sxxd = NDARR("sxx", C*D, -1, 1); mesh.szzd = NDARR("szz", C*D, -1, 1); mesh.sxz = NDARR("sxz", Nx*Nz, -1, 1); mesh.p_corr = NDARR("pc", C*D, -1, 1)
void H_xstab(void) {
  XNODE(1, Nx-2, -1); STAB; double corr = om*dt*mesh.gx[c1]*(rho[pe]-rho[pw])/dx; ASSUME(corr > 0);
  XCALL(1, 1); XEXPECT;
  CHECK("stress", EQS(ROW(aa, ja, nA[0], 0), -vol*((tE-tW)/dx + (sN-sS)/dz - corr*UU(&mesh,&S,c1)), 50));
}
void H_xres(void) {
  XNODE(1, Nx-2, -1); STAB; STRESS; double corr = om*dt*mesh.gx[c1]*(rho[pe]-rho[pw])/dx; ASSUME(corr > 0); int st = ND_IR("st", 0, 1);
  XCALL(0, st);
  CHECK("residual", EQS(A.F[e], -vol*((mesh.sxxd[pe]-mesh.sxxd[pw])/dx - (mesh.p_corr[pe]-mesh.p_corr[pw])/dx + (mesh.sxz[c1]-mesh.sxz[c1-Nx])/dz + A.b[e] - (st ? corr*u[c1] : 0.0)), 50));
}
void H_xres_periodic(void) {
  XNODE(0, 0, -2); STAB; STRESS; double corr = om*dt*mesh.gx[c1]*(rho[pe]-rho[pw])/dx; ASSUME(corr > 0); int st = ND_IR("st", 0, 1);
  XCALL(0, st);
  CHECK("residual", EQS(A.F[e], -vol*((mesh.sxxd[pe]-mesh.sxxd[pw])/dx - (mesh.p_corr[pe]-mesh.p_corr[pw])/dx + (mesh.sxz[c1]-mesh.sxz[c1-Nx])/dz + A.b[e] - (st ? corr*u[c1] : 0.0)), 50));
}
void H_xres_west(void) {
  XNODE(0, 0, 2); STRESS; double om = 0, *u = NDARR("u", Nx*(Nz+1), -1, 1), *v = NDARR("v", X*Nz, -1, 1);
  XCALL(0, 0);
  CHECK("residual", EQS(A.F[e], -vol*((mesh.sxxd[pe]-mesh.p_corr[pe]-vu[c1])/dx + 0.5*(mesh.sxz[c1]-mesh.sxz[c1-Nx])/dz + A.b[e]), 50));
}
void H_xres_east(void) {
  XNODE(Nx-1, Nx-1, 2); STRESS; double om = 0, *u = NDARR("u", Nx*(Nz+1), -1, 1), *v = NDARR("v", X*Nz, -1, 1);
  XCALL(0, 0);
  CHECK("residual", EQS(A.F[e], -vol*((vu[c1]-mesh.sxxd[pw]+mesh.p_corr[pw])/dx + 0.5*(mesh.sxz[c1]-mesh.sxz[c1-Nx])/dz + A.b[e]), 50));
}

/* ---- vertical momentum ---- */
#define ZNODE(j0, j1, tag) SYSTEM; int i = ND_IR("i", 1, Nx-1), j = ND_IR("j", j0, j1), c1 = i + j*Nx, c2 = i-1 + (j-1)*C, c3 = i + j*X, e = S.eqn_v[c3]; NATIVE(tv[c3] = tag;) ASSUME(tv[c3] == tag); \
  int ps = i-1 + (j-1)*C, pn = i-1 + j*C, vw = tv[c3-1] == -12 && i == 1 ? c3+X-3 : c3-1, ve = tv[c3+1] == -12 && i == X-2 ? c3-X+3 : c3+1
#define ZCALL(as, st) Zmomentum_InnerNodesDecoupled(&S, &A, &B, as, i, j, st, comp, om, 1, model, 1/dx, 1/dz, 1/(dx*dx), 1/(dz*dz), 1/(dx*dz), vol, &mesh, 0, c1, c2, c3, Nx, Nz, e, u, v, 0, JA, AA, nA, JB, AB, nB)
static double zshear(grid *m, SparseMat *S, int i, int j, int right, int south, int north, int n, double dx, double dz) {
  int Nx = m->Nx, X = Nx+1, c = i + j*X, g = right ? i + j*Nx : i-1 + j*Nx, up = g+Nx, t = m->BCv.type[n];
  double vc = VV(m, S, c), dv = (t == 13 ? 0.0 : t == 11 ? -2*vc : VV(m, S, n)-vc)*(right ? 1 : -1)/dx;
  double du = south ? (m->BCu.type[g] == 11 ? 2*UU(m, S, up)/dz : 0.0) : north ? (m->BCu.type[up] == 11 ? -2*UU(m, S, g)/dz : 0.0) : (UU(m, S, up)-UU(m, S, g))/dz;
  return m->BCg.type[g] == 30 ? 0.0 : m->D33_s[g]*(du+dv);
}
/* D22 is zero in cells that carry no stress */
static double znormal(double d, double dv, double du, double O, int comp) { return d*(dv - (comp ? O*(du+dv)/3 : 0.0)); }
#define ZNORTH double tN = znormal(D22[pn], (VV(&mesh,&S,c3+X)-VV(&mesh,&S,c3))/dz, (UU(&mesh,&S,c1+Nx)-UU(&mesh,&S,c1+Nx-1))/dx, O, comp)
#define ZSOUTH double tS = znormal(D22[ps], (VV(&mesh,&S,c3)-VV(&mesh,&S,c3-X))/dz, (UU(&mesh,&S,c1)-UU(&mesh,&S,c1-1))/dx, O, comp)
#define ZSHEAR(so, no) double sE = zshear(&mesh, &S, i, j, 1, so, no, ve, dx, dz), sW = zshear(&mesh, &S, i, j, 0, so, no, vw, dx, dz)
void H_zmom(void) {
  ZNODE(1, Nz-2, -1); double om = 0, *u = 0, *v = 0; ZCALL(1, 0); ZNORTH; ZSOUTH; ZSHEAR(0, 0);
  CHECK("stress", EQS(ROW(aa, ja, nA[0], 0), -vol*((tN-tS)/dz + (sE-sW)/dx), 50));
  CHECK("pressure", EQS(ROW(ab, jb, nB[0], M), vol*(PP(&mesh,&S,pn)-PP(&mesh,&S,ps))/dz, 50));
}
void H_zmom_south(void) {
  ZNODE(0, 0, 2); double om = 0, *u = 0, *v = 0; ZCALL(1, 0); ZNORTH; ZSHEAR(1, 0);
  CHECK("stress", EQS(ROW(aa, ja, nA[0], 0), -vol*(tN/dz + 0.5*(sE-sW)/dx), 50));
  CHECK("pressure", EQS(ROW(ab, jb, nB[0], M), vol*PP(&mesh,&S,pn)/dz, 50));
}
void H_zmom_north(void) {
  ZNODE(Nz-1, Nz-1, 2); double om = 0, *u = 0, *v = 0; ZCALL(1, 0); ZSOUTH; ZSHEAR(0, 1);
  CHECK("stress", EQS(ROW(aa, ja, nA[0], 0), -vol*(-tS/dz + 0.5*(sE-sW)/dx), 50));
  CHECK("pressure", EQS(ROW(ab, jb, nB[0], M), -vol*PP(&mesh,&S,ps)/dz, 50));
}
void H_zstab(void) {
  ZNODE(1, Nz-2, -1); STAB; double corr = om*dt*mesh.gz[c3]*(rho[pn]-rho[ps])/dz; ASSUME(corr > 0);
  ZCALL(1, 1); ZNORTH; ZSOUTH; ZSHEAR(0, 0);
  CHECK("stress", EQS(ROW(aa, ja, nA[0], 0), -vol*((tN-tS)/dz + (sE-sW)/dx - corr*VV(&mesh,&S,c3)), 50));
}
void H_zres(void) {
  ZNODE(1, Nz-2, -1); STAB; STRESS; double corr = om*dt*mesh.gz[c3]*(rho[pn]-rho[ps])/dz; ASSUME(corr > 0); int st = ND_IR("st", 0, 1);
  ZCALL(0, st);
  CHECK("residual", EQS(A.F[e], -vol*((mesh.szzd[pn]-mesh.szzd[ps])/dz - (mesh.p_corr[pn]-mesh.p_corr[ps])/dz + (mesh.sxz[c1]-mesh.sxz[c1-1])/dx + A.b[e] - (st ? corr*v[c3] : 0.0)), 50));
}
void H_zres_south(void) {
  ZNODE(0, 0, 2); STRESS; double om = 0, *u = NDARR("u", Nx*(Nz+1), -1, 1), *v = NDARR("v", X*Nz, -1, 1);
  ZCALL(0, 0);
  CHECK("residual", EQS(A.F[e], -vol*((mesh.szzd[pn]-mesh.p_corr[pn]-vv[c3])/dz + 0.5*(mesh.sxz[c1]-mesh.sxz[c1-1])/dx + A.b[e]), 50));
}
void H_zres_north(void) {
  ZNODE(Nz-1, Nz-1, 2); STRESS; double om = 0, *u = NDARR("u", Nx*(Nz+1), -1, 1), *v = NDARR("v", X*Nz, -1, 1);
  ZCALL(0, 0);
  CHECK("residual", EQS(A.F[e], -vol*((vv[c3]-mesh.szzd[ps]+mesh.p_corr[ps])/dz + 0.5*(mesh.sxz[c1]-mesh.sxz[c1-1])/dx + A.b[e]), 50));
}

/* ---- mass balance of a cell ---- */
#define CELL SYSTEM; int i = ND_IR("i", 0, Nx-2), j = ND_IR("j", 0, Nz-2), c2 = i + j*C, c1 = i + (j+1)*Nx, c3 = i + j*X + 1, e = ND_IR("e", 0, Q-1); double om = 0, *u = 0, *v = 0, dt = model.dt = ND_DP("dt", 0.1, 1); \
  NEW_SPARSE(Cm); NEW_SPARSE(Dm); Cm.b = NDARR("bC", Q, -1, 1); Dm.b = NDARR("bD", Q, -1, 1); Cm.bbc = NDARR("cC", Q, -1, 1); Cm.F = NDARR("FC", Q, -1, 1); Dm.F = NDARR("FD", Q, -1, 1); \
  mesh.bet_n = NDARR_P("bet", C*D, 0.1, 1)
#define CCALL(as) Continuity_InnerNodesDecoupled(&S, &Cm, &Dm, as, 0, 0, comp, om, 1, model, 1/dx, 1/dz, 1/(dx*dx), 1/(dz*dz), 1/(dx*dz), vol, &mesh, 0, c1, c2, c3, Nx, C, X, e, u, v, 0, JA, AA, nA, JB, AB, nB, i, j)
void H_cont(void) {
  CELL; ASSUME(tu[c1] != 30 && tu[c1+1] != 30 && tv[c3] != 30 && tv[c3+X] != 30); CCALL(1);
  double du = UU(&mesh,&S,c1+1)-UU(&mesh,&S,c1), dv = VV(&mesh,&S,c3+X)-VV(&mesh,&S,c3);
  CHECK("row", EQS(ROW(aa, ja, nA[0], 0), vol*O*(du/dx + dv/dz), 50));
  CHECK("source", EQ(Cm.b[e], vol*IN_D("bC", e)));
}
void H_contres(void) {
  CELL; double *pi = mesh.p_in = NDARR("pi", C*D, -1, 1), *p0 = mesh.p0_n = NDARR("p0", C*D, -1, 1), *dv = mesh.div_u = NDARR("div", C*D, -1, 1), *r = mesh.rho_n = NDARR_P("rho", C*D, 0.1, 1), *r0 = mesh.rho0_n = NDARR_P("rho0", C*D, 0.1, 1);
  int var = model.density_variations = ND_IR("var", 0, 1); CCALL(0);
  double rate = comp ? (var ? (log(r[c2]) - log(r0[c2]))/dt : mesh.bet_n[c2]*(pi[c2]-p0[c2])/dt) : 0.0, f = vol*(rate + dv[c2] - Cm.b[e]);
  CHECK("residual", EQS(Cm.F[e], f, 50)); CHECK("residual for the pressure block", EQS(Dm.F[e], f, 50));
}

/* ---- Newton rows of nodes whose whole stencil is inside the rock ----
 * the stress depends on the strain rates and the pressure through D11..D34; the shear rate of a cell is the mean over its
 * four vertices, the normal rates and the pressure of a vertex are means over its four cells */
#define NEWTON(n) SYSTEM_(5, -1, -1, -1, -1, -1, -1); double om = 0, *u = 0, *v = 0; Jac q; q.m = &mesh; q.S = &S; q.dx = dx; q.dz = dz; q.o = comp ? O/3 : 0.0; \
  q.D12 = mesh.D12_n = NDARR("D12", C*D, -1, 1); q.D13 = mesh.D13_n = NDARR("D13", C*D, -1, 1); q.D14 = mesh.D14_n = NDARR("D14", C*D, -1, 1); \
  q.D21 = mesh.D21_n = NDARR("D21", C*D, -1, 1); q.D23 = mesh.D23_n = NDARR("D23", C*D, -1, 1); q.D24 = mesh.D24_n = NDARR("D24", C*D, -1, 1); \
  q.D31 = mesh.D31_s = NDARR("D31", Nx*Nz, -1, 1); q.D32 = mesh.D32_s = NDARR("D32", Nx*Nz, -1, 1); q.D34 = mesh.D34_s = NDARR("D34", Nx*Nz, -1, 1); model.periodic_x = 0
typedef struct { grid *m; SparseMat *S; double dx, dz, o, *D12, *D13, *D14, *D21, *D23, *D24, *D31, *D32, *D34; } Jac;
static double U_(Jac *q, int i, int j) { return GX[q->S->eqn_u[i + j*q->m->Nx]]; }
static double V_(Jac *q, int i, int j) { return GX[q->S->eqn_v[i + j*(q->m->Nx+1)]]; }
static double P_(Jac *q, int i, int j) { return GX[q->S->eqn_p[i + j*(q->m->Nx-1)]]; }
/* cell (i, j) */
static double eu(Jac *q, int i, int j) { return (U_(q, i+1, j+1)-U_(q, i, j+1))/q->dx; }
static double ev(Jac *q, int i, int j) { return (V_(q, i+1, j+1)-V_(q, i+1, j))/q->dz; }
static double exx(Jac *q, int i, int j) { return eu(q,i,j) - q->o*(eu(q,i,j)+ev(q,i,j)); }
static double ezz(Jac *q, int i, int j) { return ev(q,i,j) - q->o*(eu(q,i,j)+ev(q,i,j)); }
/* vertex (i, j) */
static double gam(Jac *q, int i, int j) { return (U_(q, i, j+1)-U_(q, i, j))/q->dz + (V_(q, i+1, j)-V_(q, i, j))/q->dx; }
static double gamc(Jac *q, int i, int j) { return (gam(q,i,j)+gam(q,i+1,j)+gam(q,i,j+1)+gam(q,i+1,j+1))/4; }
static double exv(Jac *q, int i, int j) { return (exx(q,i-1,j-1)+exx(q,i,j-1)+exx(q,i-1,j)+exx(q,i,j))/4; }
static double ezv(Jac *q, int i, int j) { return (ezz(q,i-1,j-1)+ezz(q,i,j-1)+ezz(q,i-1,j)+ezz(q,i,j))/4; }
static double pv(Jac *q, int i, int j) { return (P_(q,i-1,j-1)+P_(q,i,j-1)+P_(q,i-1,j)+P_(q,i,j))/4; }
/* parts of the stresses that depend on the velocities, and on the pressure */
static double sx(Jac *q, int i, int j) { int c = i + j*(q->m->Nx-1); return q->m->D11_n[c]*exx(q,i,j) + q->D12[c]*ezz(q,i,j) + q->D13[c]*gamc(q,i,j); }
static double sz(Jac *q, int i, int j) { int c = i + j*(q->m->Nx-1); return q->D21[c]*exx(q,i,j) + q->m->D22_n[c]*ezz(q,i,j) + q->D23[c]*gamc(q,i,j); }
static double sxz_(Jac *q, int i, int j) { int c = i + j*q->m->Nx; return q->D31[c]*exv(q,i,j) + q->D32[c]*ezv(q,i,j) + q->m->D33_s[c]*gam(q,i,j); }
#define XJ(as) Xjacobian_InnerNodesDecoupled3(&S, &A, &B, as, i, j, 0, comp, om, 1, model, 1/dx, 1/dz, 1/(dx*dx), 1/(dz*dz), 1/(dx*dz), vol, &mesh, 0, i + j*Nx, i-1 + (j-1)*C, i + j*X, Nx, C, X, e, u, v, 0, JA, AA, nA, JB, AB, nB, i, j)
#define ZJ(as) Zjacobian_InnerNodesDecoupled3(&S, &A, &B, as, i, j, 0, comp, om, 1, model, 1/dx, 1/dz, 1/(dx*dx), 1/(dz*dz), 1/(dx*dz), vol, &mesh, 0, i + j*Nx, i-1 + (j-1)*C, i + j*X, Nx, C, X, e, u, v, 0, JA, AA, nA, JB, AB, nB, i, j)
void H_xjac(void) {
  NEWTON(5); int i = ND_IR("i", 2, Nx-3), j = ND_IR("j", 2, Nz-2), e = S.eqn_u[i + j*Nx]; XJ(1);
  CHECK("stress", EQS(ROW(aa, ja, nA[0], 0), -vol*((sx(&q,i,j-1)-sx(&q,i-1,j-1))/dx + (sxz_(&q,i,j)-sxz_(&q,i,j-1))/dz), 50));
  double pe = P_(&q,i,j-1), pw = P_(&q,i-1,j-1);
  CHECK("pressure", EQS(ROW(ab, jb, nB[0], M), vol*((pe-pw)/dx - (q.D14[i + (j-1)*C]*pe - q.D14[i-1 + (j-1)*C]*pw)/dx - (q.D34[i + j*Nx]*pv(&q,i,j) - q.D34[i + (j-1)*Nx]*pv(&q,i,j-1))/dz), 50));
}
void H_zjac(void) {
  NEWTON(5); int i = ND_IR("i", 2, Nx-2), j = ND_IR("j", 2, Nz-3), e = S.eqn_v[i + j*X]; ZJ(1);
  CHECK("stress", EQS(ROW(aa, ja, nA[0], 0), -vol*((sz(&q,i-1,j)-sz(&q,i-1,j-1))/dz + (sxz_(&q,i,j)-sxz_(&q,i-1,j))/dx), 50));
  double pn = P_(&q,i-1,j), ps = P_(&q,i-1,j-1);
  CHECK("pressure", EQS(ROW(ab, jb, nB[0], M), vol*((pn-ps)/dz - (q.D24[i-1 + j*C]*pn - q.D24[i-1 + (j-1)*C]*ps)/dz - (q.D34[i + j*Nx]*pv(&q,i,j) - q.D34[i-1 + j*Nx]*pv(&q,i-1,j))/dx), 50));
}
void H_xjacres(void) {
  NEWTON(5); STRESS; int i = ND_IR("i", 2, Nx-3), j = ND_IR("j", 2, Nz-2), c1 = i + j*Nx, pe = i + (j-1)*C, pw = pe-1, e = S.eqn_u[c1]; u = NDARR("u", Nx*(Nz+1), -1, 1); XJ(0);
  CHECK("residual", EQS(A.F[e], -vol*((mesh.sxxd[pe]-mesh.sxxd[pw])/dx - (mesh.p_corr[pe]-mesh.p_corr[pw])/dx + (mesh.sxz[c1]-mesh.sxz[c1-Nx])/dz + A.b[e]), 50));
}
void H_zjacres(void) {
  NEWTON(5); STRESS; int i = ND_IR("i", 2, Nx-2), j = ND_IR("j", 2, Nz-3), c1 = i + j*Nx, pn = i-1 + j*C, ps = pn-C, e = S.eqn_v[i + j*X]; v = NDARR("v", X*Nz, -1, 1); ZJ(0);
  CHECK("residual", EQS(A.F[e], -vol*((mesh.szzd[pn]-mesh.szzd[ps])/dz - (mesh.p_corr[pn]-mesh.p_corr[ps])/dz + (mesh.sxz[c1]-mesh.sxz[c1-1])/dx + A.b[e]), 50));
}

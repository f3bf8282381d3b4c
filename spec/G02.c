#include "vspec.h"
#include "contracts.h"

#define MESH(per) \
  NEW_GRID(mesh); NEW_PARAMS(model); \
  int Nx = ND_I("Nx", 2, 6), Nz = ND_I("Nz", 2, 6), Ncx = Nx-1, Ncz = Nz-1; \
  mesh.Nx = Nx; mesh.Nz = Nz; model.periodic_x = per; \
  mesh.BCp.type = NDARR_C("tp", Ncx*Ncz, -1, 31); mesh.BCg.type = NDARR_C("tg", Nx*Nz, -1, 31); \
  NATIVE(for (int q = 0; q < Ncx*Ncz; q++) if (q % 3 == 0 && mesh.BCp.type[q] > 10) mesh.BCp.type[q] = 30 + q%2;)

#define VTX(per, name, k, l) \
  CHECK(name, EQS(V[(k) + (l)*Nx], mesh.BCg.type[(k) + (l)*Nx] == 30 ? 0.0 : c2v(C, mesh.BCp.type, k, l, Nx, Nz, per), 4))
#define C2V(per) \
  MESH(per); \
  double *C = NDARR("C", Ncx*Ncz, -1, 1), *V = ARR_D("V", Nx*Nz); \
  InterpCentroidsToVerticesDouble(C, V, &mesh, &model); \
  VTX(per, "SW", 0, 0); VTX(per, "SE", Nx-1, 0); VTX(per, "NW", 0, Nz-1); VTX(per, "NE", Nx-1, Nz-1); \
  FORALL(k, 1, Nx-1) { VTX(per, "S", k, 0); VTX(per, "N", k, Nz-1); } \
  FORALL(l, 1, Nz-1) { VTX(per, "W", 0, l); VTX(per, "E", Nx-1, l); } \
  FORALL(l, 1, Nz-1) FORALL(k, 1, Nx-1) VTX(per, "inside", k, l); \
  FORALL(i, 0, Ncx*Ncz) CHECK("source-kept", C[i] == IN_D("C", i))

void H_c2v_box(void) { C2V(0); }
void H_c2v_periodic(void) { C2V(1); }

void H_v2c(void) {
  MESH(0);
  double *C = NDARR("C", Ncx*Ncz, -1, 1), *V = NDARR("V", Nx*Nz, -1, 1);
  InterpVerticesToCentroidsDouble(C, V, &mesh, &model);
  FORALL(l, 0, Ncz) FORALL(k, 0, Ncx) {
    int c = k + l*Ncx, v = k + l*Nx;
    CHECK("centroid", EQ(C[c], AIR(mesh.BCp.type[c]) ? IN_D("C", c) : 0.25*(V[v] + V[v+1] + V[v+Nx] + V[v+Nx+1])));
  }
  FORALL(i, 0, Nx*Nz) CHECK("source-kept", V[i] == IN_D("V", i));
}

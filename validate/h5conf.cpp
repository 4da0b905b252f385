// The same HDF5 calls against the substitute store and against real HDF5: the
// printed results must agree (validate/run.py h5).
#include <hdf5.h>
#ifdef REAL
#include <mpi.h>
#else
#include <mc/mc.hpp>
#endif
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
static std::string out;
static void say(const char *w, long long v) {
  out += std::string(w) + " " + std::to_string(v) + "\n";
}
#define S(x) say(#x, (x) >= 0 ? 0 : -1)
#define V(x) say(#x, (long long)(x))
#ifdef REAL
#define H5Gcreate H5Gcreate2
#define H5Gopen H5Gopen2
#define H5Dopen H5Dopen2
#define H5Acreate H5Acreate2
#endif
static void run(const char *fn, const char *missing) {
  hid_t fapl = H5Pcreate(H5P_FILE_ACCESS);
  S(H5Pset_fapl_mpio(fapl, MPI_COMM_WORLD, MPI_INFO_NULL));
  S(H5Fopen(missing, H5F_ACC_RDWR, fapl));
  hid_t f = H5Fcreate(fn, H5F_ACC_TRUNC, H5P_DEFAULT, fapl);
  S(f);
  hid_t g = H5Gcreate(f, "a", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
  S(g);
  S(H5Gcreate(f, "a", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT)); // exists
  S(H5Gopen(f, "b", H5P_DEFAULT));
  V(H5Lexists(f, "a", H5P_DEFAULT));
  V(H5Lexists(g, "x", H5P_DEFAULT));
  S(H5Dopen(g, "x", H5P_DEFAULT));
  hid_t dx = H5Pcreate(H5P_DATASET_XFER);
  S(H5Pset_dxpl_mpio(dx, H5FD_MPIO_COLLECTIVE));
  S(H5Pset_dxpl_mpio(fapl, H5FD_MPIO_COLLECTIVE)); // wrong class
  for (int n = 0; n < 4; n++)
    for (int off = 0; off < 4; off++) {
      hsize_t md[1] = {(hsize_t)n}, fd[1] = {5}, o[1] = {(hsize_t)(2 * off)};
      hid_t m = H5Screate_simple(1, md, NULL), s = H5Screate_simple(1, fd, NULL);
      S(m);
      S(H5Sselect_hyperslab(s, H5S_SELECT_SET, o, NULL, md, NULL));
      std::string nm = "d" + std::to_string(n) + std::to_string(off);
      hid_t d = H5Dcreate2(g, nm.c_str(), off % 2 ? H5T_STD_U8LE : H5T_STD_I64LE,
                           s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
      S(d);
      S(H5Dcreate2(g, nm.c_str(), H5T_STD_I64LE, s, H5P_DEFAULT, H5P_DEFAULT,
                   H5P_DEFAULT)); // exists
      hsize_t ad[1] = {5};
      hid_t all = H5Screate_simple(1, ad, NULL);
      int zero[5] = {9, 9, 9, 9, 9};
      S(H5Dwrite(d, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, dx, zero));
      int v[4] = {7 + n, 300 + off, -3, 255};
      S(H5Dwrite(d, H5T_NATIVE_INT, m, s, dx, v));
      hid_t fs = H5Dget_space(d);
      hsize_t e[1] = {0};
      V(H5Sget_simple_extent_ndims(fs));
      V(H5Sget_simple_extent_dims(fs, e, NULL));
      V(e[0]);
      long long r[5] = {1, 1, 1, 1, 1};
      S(H5Dread(d, H5T_NATIVE_LLONG, all, fs, dx, r));
      for (int k = 0; k < 5; k++)
        V(r[k]);
      double rd[5];
      S(H5Dread(d, H5T_NATIVE_DOUBLE, all, fs, dx, rd));
      for (int k = 0; k < 5; k++)
        V(rd[k]);
      S(H5Sclose(fs));
      S(H5Sclose(all));
      S(H5Dclose(d));
      S(H5Sclose(s));
      S(H5Sclose(m));
    }
  { // two dimensions
    hsize_t fd[2] = {4, 3}, md[2] = {2, 3}, o[2] = {1, 0};
    hid_t m = H5Screate_simple(2, md, NULL), s = H5Screate_simple(2, fd, NULL);
    S(H5Sselect_hyperslab(s, H5S_SELECT_SET, o, NULL, md, NULL));
    hid_t d = H5Dcreate2(g, "two", H5T_IEEE_F64LE, s, H5P_DEFAULT, H5P_DEFAULT,
                         H5P_DEFAULT);
    double w[12], r[12];
    for (int k = 0; k < 12; k++)
      w[k] = k, r[k] = -1;
    S(H5Dwrite(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, dx, w));
    for (int k = 0; k < 6; k++)
      w[k] = 100 + k;
    S(H5Dwrite(d, H5T_NATIVE_DOUBLE, m, s, dx, w));
    S(H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, dx, r));
    for (int k = 0; k < 12; k++)
      V(r[k]);
    // a memory space with a different number of elements
    hsize_t bd[1] = {5};
    hid_t b = H5Screate_simple(1, bd, NULL);
    S(H5Dwrite(d, H5T_NATIVE_DOUBLE, b, s, dx, w));
    S(H5Sclose(b));
    S(H5Dclose(d));
    S(H5Sclose(s));
    S(H5Sclose(m));
  }
  { // attributes
    hid_t p = H5Pcreate(H5P_ATTRIBUTE_CREATE), s = H5Screate(H5S_SCALAR);
    hid_t t = H5Tcreate(H5T_STRING, 5);
    S(t);
    S(H5Tcreate(H5T_STRING, 0));
    hid_t a = H5Acreate(g, "Type", t, s, p, H5P_DEFAULT);
    S(a);
    S(H5Awrite(a, t, "abcde"));
    S(H5Acreate(g, "Type", t, s, p, H5P_DEFAULT)); // exists
    S(H5Tclose(t));
    S(H5Aclose(a));
    S(H5Sclose(s));
    S(H5Pclose(p));
  }
  S(H5Fclose(f)); // the group is still open
  S(H5Gclose(g));
  S(H5Gclose(g));
  S(H5Fclose(f));
  f = H5Fopen(fn, H5F_ACC_RDONLY, fapl);
  S(f);
  S(H5Gcreate(f, "c", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT)); // read only
  g = H5Gopen(f, "a", H5P_DEFAULT);
  S(g);
  hid_t d = H5Dopen(g, "two", H5P_DEFAULT);
  double r[12];
  S(H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, dx, r));
  for (int k = 0; k < 12; k++)
    V(r[k]);
  S(H5Dwrite(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, dx, r)); // read only
  S(H5Dclose(d));
  S(H5Gclose(g));
  S(H5Fclose(f));
  f = H5Fopen(fn, H5F_ACC_RDWR, fapl);
  S(H5Gcreate(f, "c", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
  S(H5Fclose(f)); // "c" is open
  S(H5Pclose(dx));
  S(H5Pclose(fapl));
}
#ifdef REAL
int main(int c, char **v) {
  MPI_Init(&c, &v);
  H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
  run(v[1], (std::string(v[1]) + ".missing").c_str());
  printf("%s", out.c_str());
  MPI_Finalize();
}
#else
static void scenario() {
  h5mc::reset();
  mc::ranks(1, [&](int) { run("f", "missing"); });
  FILE *f = fopen(getenv("H5CONF_OUT"), "w");
  fprintf(f, "%s", out.c_str());
  fclose(f);
}
const mc_scenario mc_scenarios[] = {{"h5conf", scenario}};
const int mc_num_scenarios = 1;
int main(int c, char **v) { return mc_main(c, v, mc_scenarios, 1); }
#endif

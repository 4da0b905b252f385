// Substitute HDF5 header: the subset NESO-Particles uses, as an in-memory
// store.  Files persist for one execution (h5mc::reset() at its start); the
// handles belong to a rank.  The collective rules of parallel HDF5 are
// enforced: all ranks of the file's communicator make the same sequence of
// metadata operations and collective transfers.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <mpi.h>
#include <string>
#include <vector>
#include <mc/mc.hpp>

typedef int64_t hid_t;
typedef int herr_t;
typedef int htri_t;
typedef unsigned long long hsize_t;
typedef int H5S_seloper_t;
typedef int H5FD_mpio_xfer_t;

#define H5P_DEFAULT ((hid_t)0)
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_RDWR 1u
#define H5F_ACC_TRUNC 2u
#define H5F_ACC_EXCL 4u
#define H5P_FILE_ACCESS ((hid_t)11)
#define H5P_DATASET_XFER ((hid_t)12)
#define H5P_ATTRIBUTE_CREATE ((hid_t)13)
#define H5P_DATASET_CREATE ((hid_t)14)
#define H5FD_MPIO_INDEPENDENT 0
#define H5FD_MPIO_COLLECTIVE 1
#define H5S_SELECT_SET 0
#define H5S_SCALAR 0
#define H5S_ALL ((hid_t)0)
#define H5T_NATIVE_DOUBLE ((hid_t)101)
#define H5T_NATIVE_LLONG ((hid_t)102)
#define H5T_NATIVE_INT ((hid_t)103)
#define H5T_STD_I64LE ((hid_t)104)
#define H5T_STD_U8LE ((hid_t)105)
#define H5T_IEEE_F64LE ((hid_t)106)
#define H5T_STRING ((hid_t)107)

namespace h5mc {
struct Off { // the store is not part of the code under test
  Off() { mc_race_off(1); }
  ~Off() { mc_race_off(0); }
};
struct Attr {
  std::vector<double> v;
  std::string s;
  hid_t type = 0;
};
struct Node {
  std::string name;
  int kind = 0; // 1 group, 2 dataset
  std::map<std::string, std::shared_ptr<Node>> kids;
  std::map<std::string, std::shared_ptr<Attr>> attrs;
  hid_t type = 0;
  std::vector<hsize_t> dims;
  std::vector<double> f;
  std::vector<int64_t> i;
  std::vector<int> writes;
  size_t size() const {
    size_t n = 1;
    for (auto d : dims)
      n *= d;
    return n;
  }
  bool is_float() const {
    return type == H5T_NATIVE_DOUBLE || type == H5T_IEEE_F64LE;
  }
};
struct Session { // one collective open of a file
  std::shared_ptr<Node> root;
  std::string filename;
  MPI_Comm comm = MPI_COMM_NULL;
  int size = 0, joined = 0, closed = 0;
  bool writable = false;
  std::vector<std::string> ops;
  std::vector<std::shared_ptr<void>> res;
};
struct Obj {
  int kind = 0; // 1 file 2 group 3 dataset 4 space 5 plist 6 attr 7 type
  std::shared_ptr<Session> ses;
  std::shared_ptr<Node> node;
  std::shared_ptr<Attr> attr;
  std::vector<hsize_t> dims, off, cnt;
  bool sel = false;
  MPI_Comm comm = MPI_COMM_NULL;
  int collective = 0;
  hid_t cls = 0;
  size_t n = 0;
};
struct RankState {
  hid_t next = 1000;
  std::map<hid_t, Obj> obj;
  std::map<Session *, size_t> pos;
};
struct Store {
  std::map<std::string, std::shared_ptr<Node>> files;
  std::vector<std::shared_ptr<Session>> sessions;
  std::map<int, RankState> ranks;
};
inline Store &store() {
  static Store s;
  return s;
}
inline void reset() {
  Off o;
  store() = Store();
}
inline RankState &me() { return store().ranks[mc_rank()]; }
inline Obj *get(hid_t h, int kind) {
  auto &m = me().obj;
  auto it = m.find(h);
  if (it == m.end() || (kind && it->second.kind != kind))
    return nullptr;
  return &it->second;
}
inline hid_t put(Obj o) {
  auto &r = me();
  const hid_t h = r.next++;
  r.obj[h] = std::move(o);
  return h;
}
// A collective operation: true when this rank is the first to reach it.
inline bool collective(const std::shared_ptr<Session> &s, const std::string &op,
                       size_t &idx) {
  idx = me().pos[s.get()]++;
  if (idx == s->ops.size()) {
    s->ops.push_back(op);
    s->res.push_back(nullptr);
    return true;
  }
  if (s->ops[idx] != op)
    mc::fail("ranks make different collective HDF5 calls: ", s->ops[idx],
             " and ", op);
  return false;
}
inline int group_of(hid_t h, std::shared_ptr<Session> &s,
                    std::shared_ptr<Node> &n) {
  auto *o = get(h, 0);
  if (!o || (o->kind != 1 && o->kind != 2))
    return -1;
  s = o->ses;
  n = o->node;
  return 0;
}
inline std::string dims_str(const std::vector<hsize_t> &d) {
  std::string s = "(";
  for (auto x : d)
    s += std::to_string(x) + ",";
  return s + ")";
}
inline herr_t close(hid_t h, int kind) {
  Off off;
  if (!get(h, kind))
    return -1;
  me().obj.erase(h);
  return 0;
}
inline int open_handles() {
  Off off;
  return (int)me().obj.size();
}
// elements selected by a dataspace, in order; empty selection if count is 0
inline int selection(const Obj *s, std::vector<size_t> &out) {
  const size_t nd = s->dims.size();
  std::vector<hsize_t> off = s->off, cnt = s->cnt;
  if (!s->sel) {
    off.assign(nd, 0);
    cnt = s->dims;
  }
  size_t n = 1;
  for (size_t d = 0; d < nd; d++)
    n *= cnt[d];
  if (n == 0)
    return 0;
  for (size_t d = 0; d < nd; d++)
    if (off[d] + cnt[d] > s->dims[d] || off[d] + cnt[d] < off[d])
      return -1;
  for (size_t k = 0; k < n; k++) {
    size_t r = k, lin = 0, mul = 1;
    for (size_t d = nd; d-- > 0;) {
      lin += (off[d] + r % cnt[d]) * mul;
      r /= cnt[d];
      mul *= s->dims[d];
    }
    out.push_back(lin);
  }
  return 0;
}
inline size_t type_size(hid_t t) {
  switch (t) {
  case H5T_NATIVE_DOUBLE:
  case H5T_NATIVE_LLONG:
  case H5T_STD_I64LE:
  case H5T_IEEE_F64LE:
    return 8;
  case H5T_NATIVE_INT:
    return 4;
  case H5T_STD_U8LE:
    return 1;
  }
  return 0;
}
} // namespace h5mc

inline hid_t H5Pcreate(hid_t cls) {
  h5mc::Off off;
  h5mc::Obj o;
  o.kind = 5;
  o.cls = cls;
  return h5mc::put(o);
}
inline herr_t H5Pclose(hid_t h) { return h5mc::close(h, 5); }
inline herr_t H5Pset_fapl_mpio(hid_t p, MPI_Comm comm, MPI_Info) {
  h5mc::Off off;
  auto *o = h5mc::get(p, 5);
  if (!o || o->cls != H5P_FILE_ACCESS || comm == MPI_COMM_NULL)
    return -1;
  o->comm = comm;
  return 0;
}
inline herr_t H5Pset_dxpl_mpio(hid_t p, H5FD_mpio_xfer_t m) {
  h5mc::Off off;
  auto *o = h5mc::get(p, 5);
  if (!o || o->cls != H5P_DATASET_XFER)
    return -1;
  o->collective = m;
  return 0;
}

namespace h5mc {
inline hid_t file_open(const char *name, bool create, bool write, hid_t fapl) {
  MPI_Comm comm;
  {
    Off off;
    auto *o = get(fapl, 5);
    if (!o || o->comm == MPI_COMM_NULL)
      return -1;
    comm = o->comm;
  }
  MPI_Barrier(comm);
  int size = 0;
  MPI_Comm_size(comm, &size);
  Off off;
  auto &st = store();
  std::shared_ptr<Session> s;
  for (auto &x : st.sessions)
    if (x->filename == name && x->joined < x->size)
      s = x;
  if (!s) {
    for (auto &x : st.sessions)
      if (x->filename == name && x->closed < x->size &&
          (create || x->writable || write))
        return -1; // the file is already open
    if (!create && !st.files.count(name))
      return -1;
    s = std::make_shared<Session>();
    s->filename = name;
    s->comm = comm;
    s->size = size;
    s->writable = write;
    s->ops.push_back(create ? "create" : "open");
    s->res.push_back(nullptr);
    if (create) {
      auto r = std::make_shared<Node>();
      r->kind = 1;
      r->name = "/";
      st.files[name] = r;
    }
    s->root = st.files[name];
    st.sessions.push_back(s);
  }
  s->joined++;
  if (s->ops[0] != (create ? "create" : "open") || s->writable != write ||
      s->size != size)
    mc::fail("ranks open ", name, " differently");
  me().pos[s.get()] = 1;
  Obj o;
  o.kind = 1;
  o.ses = s;
  o.node = s->root;
  o.comm = comm;
  return put(o);
}
} // namespace h5mc

inline hid_t H5Fcreate(const char *name, unsigned flags, hid_t, hid_t fapl) {
  if (flags != H5F_ACC_TRUNC)
    return -1;
  return h5mc::file_open(name, true, true, fapl);
}
inline hid_t H5Fopen(const char *name, unsigned flags, hid_t fapl) {
  return h5mc::file_open(name, false, (flags & H5F_ACC_RDWR) != 0, fapl);
}
inline herr_t H5Fclose(hid_t h) {
  MPI_Comm comm;
  {
    h5mc::Off off;
    auto *o = h5mc::get(h, 1);
    if (!o)
      return -1;
    comm = o->comm;
    // the MPI-IO driver closes with H5F_CLOSE_SEMI: objects still open in the
    // file make the close fail
    for (auto &x : h5mc::me().obj)
      if (x.first != h && x.second.ses == o->ses)
        return -1;
    size_t i;
    h5mc::collective(o->ses, "close", i);
  }
  MPI_Barrier(comm);
  h5mc::Off off;
  h5mc::get(h, 1)->ses->closed++;
  h5mc::me().obj.erase(h);
  return 0;
}

inline hid_t H5Gcreate(hid_t loc, const char *name, hid_t, hid_t, hid_t) {
  h5mc::Off off;
  std::shared_ptr<h5mc::Session> s;
  std::shared_ptr<h5mc::Node> n;
  if (h5mc::group_of(loc, s, n) || !s->writable)
    return -1;
  size_t i;
  if (h5mc::collective(s, std::string("group ") + n->name + " " + name, i)) {
    if (!n->kids.count(name)) {
      auto k = std::make_shared<h5mc::Node>();
      k->kind = 1;
      k->name = n->name + name + "/";
      n->kids[name] = k;
      s->res[i] = k;
    }
  }
  if (!s->res[i])
    return -1;
  h5mc::Obj o;
  o.kind = 2;
  o.ses = s;
  o.node = std::static_pointer_cast<h5mc::Node>(s->res[i]);
  return h5mc::put(o);
}
inline hid_t H5Gopen(hid_t loc, const char *name, hid_t) {
  h5mc::Off off;
  std::shared_ptr<h5mc::Session> s;
  std::shared_ptr<h5mc::Node> n;
  if (h5mc::group_of(loc, s, n) || !n->kids.count(name) ||
      n->kids[name]->kind != 1)
    return -1;
  h5mc::Obj o;
  o.kind = 2;
  o.ses = s;
  o.node = n->kids[name];
  return h5mc::put(o);
}
inline herr_t H5Gclose(hid_t h) { return h5mc::close(h, 2); }
inline htri_t H5Lexists(hid_t loc, const char *name, hid_t) {
  h5mc::Off off;
  std::shared_ptr<h5mc::Session> s;
  std::shared_ptr<h5mc::Node> n;
  if (h5mc::group_of(loc, s, n))
    return -1;
  return n->kids.count(name) ? 1 : 0;
}

inline hid_t H5Screate_simple(int rank, const hsize_t *dims, const hsize_t *) {
  h5mc::Off off;
  h5mc::Obj o;
  o.kind = 4;
  o.dims.assign(dims, dims + rank);
  return h5mc::put(o);
}
inline hid_t H5Screate(int) {
  h5mc::Off off;
  h5mc::Obj o;
  o.kind = 4;
  return h5mc::put(o);
}
inline herr_t H5Sclose(hid_t h) { return h5mc::close(h, 4); }
inline herr_t H5Sselect_hyperslab(hid_t h, H5S_seloper_t, const hsize_t *start,
                                  const hsize_t *stride, const hsize_t *count,
                                  const hsize_t *block) {
  h5mc::Off off;
  auto *o = h5mc::get(h, 4);
  if (!o || stride || block)
    return -1;
  o->sel = true;
  o->off.assign(start, start + o->dims.size());
  o->cnt.assign(count, count + o->dims.size());
  return 0;
}
inline int H5Sget_simple_extent_ndims(hid_t h) {
  h5mc::Off off;
  auto *o = h5mc::get(h, 4);
  return o ? (int)o->dims.size() : -1;
}
inline int H5Sget_simple_extent_dims(hid_t h, hsize_t *dims, hsize_t *) {
  h5mc::Off off;
  auto *o = h5mc::get(h, 4);
  if (!o)
    return -1;
  for (size_t k = 0; k < o->dims.size(); k++)
    dims[k] = o->dims[k];
  return (int)o->dims.size();
}

inline hid_t H5Dcreate2(hid_t loc, const char *name, hid_t type, hid_t space,
                        hid_t, hid_t, hid_t) {
  h5mc::Off off;
  std::shared_ptr<h5mc::Session> s;
  std::shared_ptr<h5mc::Node> n;
  auto *sp = h5mc::get(space, 4);
  if (h5mc::group_of(loc, s, n) || !sp || !s->writable ||
      !h5mc::type_size(type))
    return -1;
  size_t i;
  if (h5mc::collective(s, "dataset " + n->name + " " + name + " " +
                              std::to_string(type) + h5mc::dims_str(sp->dims),
                       i)) {
    if (!n->kids.count(name)) {
      auto k = std::make_shared<h5mc::Node>();
      k->kind = 2;
      k->name = n->name + name;
      k->type = type;
      k->dims = sp->dims;
      k->f.assign(k->size(), -1.5e300);
      k->i.assign(k->size(), -77777);
      k->writes.assign(k->size(), 0);
      n->kids[name] = k;
      s->res[i] = k;
    }
  }
  if (!s->res[i])
    return -1;
  h5mc::Obj o;
  o.kind = 3;
  o.ses = s;
  o.node = std::static_pointer_cast<h5mc::Node>(s->res[i]);
  return h5mc::put(o);
}
inline hid_t H5Dcreate1(hid_t loc, const char *name, hid_t type, hid_t space,
                        hid_t) {
  return H5Dcreate2(loc, name, type, space, 0, 0, 0);
}
inline hid_t H5Dopen(hid_t loc, const char *name, hid_t) {
  h5mc::Off off;
  std::shared_ptr<h5mc::Session> s;
  std::shared_ptr<h5mc::Node> n;
  if (h5mc::group_of(loc, s, n) || !n->kids.count(name) ||
      n->kids[name]->kind != 2)
    return -1;
  h5mc::Obj o;
  o.kind = 3;
  o.ses = s;
  o.node = n->kids[name];
  return h5mc::put(o);
}
inline herr_t H5Dclose(hid_t h) { return h5mc::close(h, 3); }
inline hid_t H5Dget_space(hid_t h) {
  h5mc::Off off;
  auto *d = h5mc::get(h, 3);
  if (!d)
    return -1;
  h5mc::Obj o;
  o.kind = 4;
  o.dims = d->node->dims;
  return h5mc::put(o);
}

namespace h5mc {
// common to reads and writes: resolve the selections and the transfer mode
inline int transfer(hid_t dset, hid_t memtype, hid_t mspace, hid_t fspace,
                    hid_t dxpl, bool write, std::vector<size_t> &ms,
                    std::vector<size_t> &fs, std::shared_ptr<Node> &node,
                    size_t &mem_total) {
  auto *d = get(dset, 3);
  const size_t ts = type_size(memtype);
  if (!d || !ts || (write && !d->ses->writable))
    return -1;
  node = d->node;
  if (auto *p = get(dxpl, 5)) {
    size_t i;
    if (p->collective == H5FD_MPIO_COLLECTIVE)
      collective(d->ses, (write ? "write " : "read ") + node->name, i);
  } else if (dxpl != H5P_DEFAULT)
    return -1;
  Obj whole;
  whole.kind = 4;
  whole.dims = node->dims;
  auto *f = fspace == H5S_ALL ? &whole : get(fspace, 4);
  if (!f || f->dims != node->dims || selection(f, fs))
    return -1;
  auto *m = mspace == H5S_ALL ? f : get(mspace, 4);
  if (!m || selection(m, ms) || ms.size() != fs.size())
    return -1;
  mem_total = 0;
  for (auto k : ms)
    mem_total = std::max(mem_total, k + 1);
  mem_total *= ts;
  return 0;
}
} // namespace h5mc

inline herr_t H5Dwrite(hid_t dset, hid_t memtype, hid_t mspace, hid_t fspace,
                       hid_t dxpl, const void *buf) {
  std::vector<size_t> ms, fs;
  std::shared_ptr<h5mc::Node> n;
  size_t bytes = 0;
  {
    h5mc::Off off;
    if (h5mc::transfer(dset, memtype, mspace, fspace, dxpl, true, ms, fs, n,
                       bytes))
      return -1;
  }
  if (bytes) {
    if (!buf)
      return -1;
    mc_host_access(buf, bytes, 0, "H5Dwrite");
  }
  h5mc::Off off;
  for (size_t k = 0; k < ms.size(); k++) {
    double f = 0;
    int64_t i = 0;
    if (memtype == H5T_NATIVE_DOUBLE || memtype == H5T_IEEE_F64LE) {
      memcpy(&f, (const char *)buf + 8 * ms[k], 8);
      i = n->is_float() ? 0 : (int64_t)f;
    } else if (h5mc::type_size(memtype) == 8) {
      memcpy(&i, (const char *)buf + 8 * ms[k], 8);
      f = (double)i;
    } else {
      int v;
      memcpy(&v, (const char *)buf + 4 * ms[k], 4);
      i = v;
      f = v;
    }
    if (n->type == H5T_STD_U8LE)
      i = i < 0 ? 0 : i > 255 ? 255 : i;
    n->f[fs[k]] = f;
    n->i[fs[k]] = i;
    n->writes[fs[k]]++;
  }
  return 0;
}
inline herr_t H5Dread(hid_t dset, hid_t memtype, hid_t mspace, hid_t fspace,
                      hid_t dxpl, void *buf) {
  std::vector<size_t> ms, fs;
  std::shared_ptr<h5mc::Node> n;
  size_t bytes = 0;
  {
    h5mc::Off off;
    if (h5mc::transfer(dset, memtype, mspace, fspace, dxpl, false, ms, fs, n,
                       bytes))
      return -1;
  }
  if (bytes) {
    if (!buf)
      return -1;
    mc_host_access(buf, bytes, 1, "H5Dread");
  }
  h5mc::Off off;
  for (size_t k = 0; k < ms.size(); k++) {
    if (memtype == H5T_NATIVE_DOUBLE) {
      double f = n->is_float() ? n->f[fs[k]] : (double)n->i[fs[k]];
      memcpy((char *)buf + 8 * ms[k], &f, 8);
    } else {
      int64_t i = n->is_float() ? (int64_t)n->f[fs[k]] : n->i[fs[k]];
      if (h5mc::type_size(memtype) == 8)
        memcpy((char *)buf + 8 * ms[k], &i, 8);
      else {
        int v = (int)i;
        memcpy((char *)buf + 4 * ms[k], &v, 4);
      }
    }
  }
  return 0;
}

inline hid_t H5Tcreate(hid_t cls, size_t n) {
  h5mc::Off off;
  if (cls != H5T_STRING || n == 0)
    return -1;
  h5mc::Obj o;
  o.kind = 7;
  o.cls = cls;
  o.n = n;
  return h5mc::put(o);
}
inline herr_t H5Tclose(hid_t h) { return h5mc::close(h, 7); }
inline hid_t H5Acreate(hid_t loc, const char *name, hid_t type, hid_t space,
                       hid_t, hid_t) {
  h5mc::Off off;
  std::shared_ptr<h5mc::Session> s;
  std::shared_ptr<h5mc::Node> n;
  auto *sp = h5mc::get(space, 4);
  if (h5mc::group_of(loc, s, n) || !sp || !s->writable)
    return -1;
  size_t i;
  if (h5mc::collective(s, "attribute " + n->name + " " + name, i)) {
    if (!n->attrs.count(name)) {
      auto a = std::make_shared<h5mc::Attr>();
      a->type = type;
      size_t m = 1;
      for (auto d : sp->dims)
        m *= d;
      a->v.resize(m);
      n->attrs[name] = a;
      s->res[i] = a;
    }
  }
  if (!s->res[i])
    return -1;
  h5mc::Obj o;
  o.kind = 6;
  o.ses = s;
  o.node = n;
  o.attr = std::static_pointer_cast<h5mc::Attr>(s->res[i]);
  return h5mc::put(o);
}
inline herr_t H5Awrite(hid_t h, hid_t type, const void *buf) {
  h5mc::Off off;
  auto *o = h5mc::get(h, 6);
  if (!o)
    return -1;
  if (auto *t = h5mc::get(type, 7)) {
    o->attr->s.assign((const char *)buf, t->n);
    return 0;
  }
  for (size_t k = 0; k < o->attr->v.size(); k++) {
    if (type == H5T_NATIVE_INT)
      o->attr->v[k] = ((const int *)buf)[k];
    else if (type == H5T_NATIVE_DOUBLE)
      o->attr->v[k] = ((const double *)buf)[k];
    else
      return -1;
  }
  return 0;
}
inline herr_t H5Aclose(hid_t h) { return h5mc::close(h, 6); }

// A ParticleGroup together with a host-side reference model of its contents.
#pragma once
#include "common.hpp"
namespace H {

// One particle of the reference model: exact values of every property.
struct Part {
  INT cell = 0;
  std::map<std::string, std::vector<REAL>> r;
  std::map<std::string, std::vector<INT>> i;
};

struct TG : public ParticleGroup {
  TG(DomainSharedPtr d, ParticleSpec &s, SYCLTargetSharedPtr t)
      : ParticleGroup(d, s, t) {}
  int nc() { return this->ncell; }
  auto &reals() { return this->particle_dats_real; }
  auto &ints() { return this->particle_dats_int; }
  auto spec() { return this->particle_spec; }
  auto pmap() { return this->particle_group_pointer_map; }
  template <typename T> void check_dat(ParticleDatSharedPtr<T> dat) {
    for (int c = 0; c < ncell; c++) {
      const INT n = this->h_npart_cell.ptr[c];
      int td;
      this->sycl_target->queue.memcpy(&td, dat->d_npart_cell + c, sizeof(int))
          .wait_and_throw();
      MC_CHECK(dat->h_npart_cell[c] == n, "host occupancy of dat ",
               dat->sym.name, " cell ", c);
      MC_CHECK(td == n, "device occupancy of dat ", dat->sym.name, " cell ", c);
      MC_CHECK(dat->cell_dat.nrow_alloc.at(c) >= n, "capacity ", dat->sym.name);
      MC_CHECK(dat->cell_dat.get_nrow_max() >= n, "nrow max");
    }
    MC_CHECK(dat->ncell == ncell, "ncell");
    MC_CHECK(dat->get_npart_local() == this->npart_local, "npart local of dat ",
             dat->sym.name, " ", dat->get_npart_local(), " ",
             this->npart_local);
  }
  void check_internal() {
    auto d = this->d_npart_cell.get();
    auto es = this->dh_npart_cell_es->d_buffer.get();
    auto hes = this->dh_npart_cell_es->h_buffer.get();
    INT t = 0;
    for (int c = 0; c < ncell; c++) {
      const INT n = this->h_npart_cell.ptr[c];
      MC_CHECK(n >= 0, "occupancy");
      MC_CHECK(d.at(c) == n, "device occupancy cell ", c);
      MC_CHECK(es.at(c) == t && hes.at(c) == t, "occupancy scan cell ", c);
      MC_CHECK(this->get_npart_cell(c) == n, "get_npart_cell ", c);
      t += n;
    }
    MC_CHECK(this->get_npart_local() == t, "npart_local ",
             this->get_npart_local(), " != ", t);
    for (auto &x : particle_dats_real)
      check_dat(x.second);
    for (auto &x : particle_dats_int)
      check_dat(x.second);
  }
};
typedef std::shared_ptr<TG> TGP;

// Reads back every particle of the group (ID must be a property with unique
// values unless multi is used).
inline std::vector<Part> snapshot(ParticleGroup &g0, const TG &) = delete;
inline std::vector<Part> snapshot(TG &g) {
  std::vector<Part> out;
  for (int c = 0; c < g.nc(); c++) {
    const int n = (int)g.get_npart_cell(c);
    const size_t base = out.size();
    out.resize(base + n);
    for (int k = 0; k < n; k++)
      out[base + k].cell = c;
    for (auto &x : g.reals()) {
      auto cd = g.get_cell(x.first, c);
      MC_CHECK(cd->nrow == n, "rows of ", x.first.name, " in cell ", c, ": ",
               cd->nrow, " expected ", n);
      MC_CHECK(cd->ncol == x.second->ncomp, "columns of ", x.first.name);
      for (int k = 0; k < n; k++)
        for (int q = 0; q < cd->ncol; q++)
          out[base + k].r[x.first.name].push_back(cd->at(k, q));
    }
    for (auto &x : g.ints()) {
      auto cd = g.get_cell(x.first, c);
      MC_CHECK(cd->nrow == n, "rows of ", x.first.name, " in cell ", c, ": ",
               cd->nrow, " expected ", n);
      MC_CHECK(cd->ncol == x.second->ncomp, "columns of ", x.first.name);
      for (int k = 0; k < n; k++)
        for (int q = 0; q < cd->ncol; q++)
          out[base + k].i[x.first.name].push_back(cd->at(k, q));
    }
  }
  return out;
}

inline std::string show(const Part &p) {
  std::ostringstream s;
  s.precision(17);
  s << "cell=" << p.cell;
  for (auto &x : p.r) {
    s << " " << x.first << "=(";
    for (auto v : x.second)
      s << v << ",";
    s << ")";
  }
  for (auto &x : p.i) {
    s << " " << x.first << "=(";
    for (auto v : x.second)
      s << v << ",";
    s << ")";
  }
  return s.str();
}

struct Less {
  bool operator()(const Part &a, const Part &b) const {
    if (a.cell != b.cell)
      return a.cell < b.cell;
    if (a.i != b.i)
      return a.i < b.i;
    return a.r < b.r;
  }
};

// Multiset comparison of the group's contents against the model.  `ignore`
// lists properties whose value the property under test does not define.
inline void compare(std::vector<Part> got, std::vector<Part> want,
                    const std::set<std::string> &ignore = {"NESO_MPI_RANK"},
                    const char *when = "") {
  for (auto *v : {&got, &want})
    for (auto &p : *v)
      for (auto &s : ignore) {
        p.r.erase(s);
        p.i.erase(s);
      }
  std::sort(got.begin(), got.end(), Less());
  std::sort(want.begin(), want.end(), Less());
  MC_CHECK(got.size() == want.size(), when, ": number of particles ",
           got.size(), " expected ", want.size());
  for (size_t k = 0; k < got.size(); k++) {
    if (Less()(got[k], want[k]) || Less()(want[k], got[k]))
      mc::fail(when, ": particle ", k, " got ", show(got[k]), " expected ",
               show(want[k]));
  }
}

inline void hash_state(const std::vector<Part> &v) {
  for (auto &p : v) {
    mc::outcome(p.cell + 1);
    for (auto &x : p.i)
      if (x.first == "ID")
        mc::outcome_v(x.second);
  }
}

// Default property set used by most harnesses.  A has two components and sorts
// before CELL_ID so that property index and component offset differ.
inline ParticleSpec base_spec(int ndim) {
  return ParticleSpec{ParticleProp(Sym<REAL>("P"), ndim, true),
                      ParticleProp(Sym<REAL>("V"), 3),
                      ParticleProp(Sym<INT>("A"), 2),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("ID"), 1)};
}

// The model of a freshly built particle with the base properties.
inline Part base_part(int ndim, int id, INT cell, std::vector<REAL> pos = {}) {
  Part p;
  p.cell = cell;
  for (int d = 0; d < ndim; d++)
    p.r["P"].push_back(d < (int)pos.size() ? pos[d] : rval(id, d));
  for (int d = 0; d < 3; d++)
    p.r["V"].push_back(rval(id, 10 + d));
  for (int d = 0; d < 2; d++)
    p.i["A"].push_back(ival(id, d));
  p.i["CELL_ID"] = {cell};
  p.i["ID"] = {id};
  return p;
}

// ParticleSet holding the given model particles for the properties in spec.
inline ParticleSetSharedPtr to_set(const std::vector<Part> &v,
                                   ParticleSpec spec) {
  auto ps = std::make_shared<ParticleSet>((int)v.size(), spec);
  for (size_t k = 0; k < v.size(); k++) {
    for (auto &pr : spec.properties_real)
      for (int c = 0; c < pr.ncomp; c++)
        ps->at(pr.sym, (int)k, c) = v[k].r.at(pr.name).at(c);
    for (auto &pr : spec.properties_int)
      for (int c = 0; c < pr.ncomp; c++)
        ps->at(pr.sym, (int)k, c) = v[k].i.at(pr.name).at(c);
  }
  return ps;
}

// A group with occ[c] particles in cell c, ids counting up; ref receives the
// model.
inline TGP make_group(World &w, const std::vector<int> &occ,
                      std::vector<Part> &ref, ParticleSpec spec, int ndim,
                      int id0 = 0) {
  auto g = std::make_shared<TG>(w.domain, spec, w.target);
  ref.clear();
  for (size_t c = 0; c < occ.size(); c++)
    for (int k = 0; k < occ[c]; k++) {
      auto p = base_part(ndim, id0 + (int)ref.size(), (INT)c);
      for (auto &pr : spec.properties_real)
        if (!p.r.count(pr.name))
          p.r[pr.name] = std::vector<REAL>(pr.ncomp, 0.0);
      for (auto &pr : spec.properties_int)
        if (!p.i.count(pr.name))
          p.i[pr.name] = std::vector<INT>(pr.ncomp, 0);
      ref.push_back(p);
    }
  g->add_particles_local(to_set(ref, spec));
  return g;
}
inline ParticleGroupSharedPtr pg(const TGP &g) {
  return std::static_pointer_cast<ParticleGroup>(g);
}
inline void set_param(World &w, const char *name, size_t v) {
  w.target->parameters->set(name, std::make_shared<SizeTParameter>(v));
}

// Fill in the properties a group has which the inserted particles lack.
inline void complete(TG &g, std::vector<Part> &v, REAL rv = 0, INT iv = 0) {
  for (auto &p : v) {
    for (auto &x : g.reals())
      if (!p.r.count(x.first.name))
        p.r[x.first.name] = std::vector<REAL>(x.second->ncomp, rv);
    for (auto &x : g.ints())
      if (!p.i.count(x.first.name))
        p.i[x.first.name] = std::vector<INT>(x.second->ncomp, iv);
  }
}
} // namespace H

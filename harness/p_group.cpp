// Every sequence of ParticleGroup operations up to a depth agrees with a
// reference multiset of particles.
#include "model.hpp"
using namespace H;

struct Ctx {
  World w;
  int ndim;
  TGP g;
  std::vector<Part> ref;
  int next_id = 0;
  TGP other; // a second group with a different property set
  std::vector<Part> oref;
  bool has_extra = false, has_extra_int = false;
  bool nontriv = false;
  Ctx() : w({2, 2}), ndim(2) {
    auto s = base_spec(2);
    g = std::make_shared<TG>(w.domain, s, w.target);
  }
  ~Ctx() {
    g.reset();
    other.reset();
  }
  void sync() { // model order follows (cell,row) order of the implementation
    ref = snapshot(*g);
    for (auto &p : ref)
      p.i.erase("NESO_MPI_RANK");
  }
};

static const int NC = 4;

// Occupancy patterns of inserted particles: cells of each particle.
static std::vector<int> pattern(int k) {
  switch (k) {
  case 0:
    return {1};
  case 1:
    return {0, 2, 0};
  case 2:
    return {3, 3, 1, 3, 0};
  case 3:
    return {2, 2, 2, 2};
  default:
    return {};
  }
}

static std::vector<Part> fresh(Ctx &c, const std::vector<int> &cells) {
  std::vector<Part> v;
  for (int x : cells)
    v.push_back(base_part(c.ndim, c.next_id++, x));
  return v;
}
static void append(std::vector<Part> &a, const std::vector<Part> &b) {
  a.insert(a.end(), b.begin(), b.end());
}

static void verify(Ctx &c, const char *when) {
  c.g->check_internal();
  compare(snapshot(*c.g), c.ref, {"NESO_MPI_RANK"}, when);
  if (c.other) {
    c.other->check_internal();
    compare(snapshot(*c.other), c.oref, {"NESO_MPI_RANK"}, when);
  }
}

// Remove the model particles at the given (cell,row) pairs of the current
// implementation ordering.
static void model_remove(Ctx &c, const std::set<std::pair<INT, INT>> &rm) {
  auto s = snapshot(*c.g);
  std::map<INT, INT> row;
  std::set<INT> ids;
  for (auto &p : s) {
    INT r = row[p.cell]++;
    if (rm.count({p.cell, r}))
      ids.insert(p.i.at("ID").at(0));
  }
  std::vector<Part> keep;
  for (auto &p : c.ref)
    if (!ids.count(p.i.at("ID").at(0)))
      keep.push_back(p);
  c.ref = keep;
}

enum {
  ADD_SET,
  ADD_SET_PARTIAL,
  ADD_PM,
  ADD_GROUP,
  ADD_SUB,
  ADD_DESC,
  REM_VEC,
  REM_SUB,
  CLEAR,
  DAT_ADD,
  DAT_DEL,
  CELLMOVE,
  WRITE,
  GET,
  GMOVE,
  NOPS
};
static const char *names[] = {
    "add_set", "add_set_partial", "add_product_matrix", "add_group", "add_sub",
    "add_descendants", "remove_vec", "remove_sub", "clear", "dat_add", "dat_del",
    "cell_move", "write", "get", "hybrid_move"};

static void make_other(Ctx &c) {
  if (c.other)
    return;
  // Lacks V, has an additional property B and a reordered index space.
  ParticleSpec s{ParticleProp(Sym<REAL>("B"), 2),
                 ParticleProp(Sym<REAL>("P"), c.ndim, true),
                 ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                 ParticleProp(Sym<INT>("ID"), 1),
                 ParticleProp(Sym<INT>("A"), 2)};
  c.other = std::make_shared<TG>(c.w.domain, s, c.w.target);
  std::vector<Part> v;
  for (int cell : {1, 0, 1, 3}) {
    auto p = base_part(c.ndim, c.next_id++, cell);
    p.r.erase("V");
    p.r["B"] = {rval(c.next_id, 30), rval(c.next_id, 31)};
    v.push_back(p);
  }
  c.other->add_particles_local(to_set(v, s));
  complete(*c.other, v);
  c.oref = v;
}

static void step(Ctx &c, int op, int arg, bool full) {
  auto &g = *c.g;
  switch (op) {
  case ADD_SET: {
    auto v = fresh(c, pattern(arg));
    auto s = base_spec(c.ndim);
    g.add_particles_local(to_set(v, s));
    complete(g, v);
    append(c.ref, v);
    break;
  }
  case ADD_SET_PARTIAL: { // properties V and A are missing -> zero
    auto v = fresh(c, pattern(arg));
    ParticleSpec s{ParticleProp(Sym<REAL>("P"), c.ndim, true),
                   ParticleProp(Sym<INT>("ID"), 1),
                   ParticleProp(Sym<INT>("CELL_ID"), 1, true)};
    g.add_particles_local(to_set(v, s));
    for (auto &p : v) {
      p.r.erase("V");
      p.i.erase("A");
    }
    complete(g, v);
    append(c.ref, v);
    break;
  }
  case ADD_PM: {
    // CELL_ID after a two component property.
    ParticleSpec s{ParticleProp(Sym<REAL>("V"), 3),
                   ParticleProp(Sym<INT>("A"), 2),
                   ParticleProp(Sym<INT>("ID"), 1),
                   ParticleProp(Sym<INT>("CELL_ID"), 1)};
    auto spec = product_matrix_spec(s);
    auto pm = product_matrix(c.w.target, spec);
    auto v = fresh(c, pattern(arg));
    const int n = (int)v.size();
    pm->reset(n);
    auto hv = std::make_shared<LocalArray<REAL>>(c.w.target, 3 * n, 0.0);
    std::vector<REAL> rv;
    std::vector<INT> iv;
    for (auto &p : v) {
      for (int d = 0; d < 3; d++)
        rv.push_back(p.r["V"][d]);
      iv.push_back(p.i["A"][0]);
      iv.push_back(p.i["A"][1]);
      iv.push_back(p.i["ID"][0]);
      iv.push_back(p.cell);
      p.r.erase("P");
    }
    LocalArray<REAL> lr(c.w.target, rv);
    LocalArray<INT> li(c.w.target, iv);
    // fill from a single work item of a loop over a one particle group
    ParticleSpec s1{ParticleProp(Sym<REAL>("P"), c.ndim, true),
                    ParticleProp(Sym<INT>("CELL_ID"), 1, true)};
    auto one = std::make_shared<TG>(c.w.domain, s1, c.w.target);
    auto ps = std::make_shared<ParticleSet>(1, s1);
    one->add_particles_local(ps);
    particle_loop(
        one,
        [=](auto PM, auto R, auto I) {
          for (int k = 0; k < n; k++) {
            for (int d = 0; d < 3; d++)
              PM.at_real(k, 0, d) = R.at(k * 3 + d);
            PM.at_int(k, 0, 0) = I.at(k * 4);
            PM.at_int(k, 0, 1) = I.at(k * 4 + 1);
            PM.at_int(k, 1, 0) = I.at(k * 4 + 2);
            PM.at_int(k, 2, 0) = I.at(k * 4 + 3);
          }
        },
        Access::write(pm), Access::read(lr), Access::read(li))
        ->execute();
    g.add_particles_local(pm);
    complete(g, v);
    append(c.ref, v);
    break;
  }
  case ADD_GROUP:
  case ADD_SUB: {
    make_other(c);
    std::vector<Part> v = c.oref;
    if (op == ADD_GROUP)
      g.add_particles_local(std::static_pointer_cast<ParticleGroup>(c.other));
    else {
      const int m = arg;
      auto sg = particle_sub_group(
          std::static_pointer_cast<ParticleGroup>(c.other),
          [=](auto ID) { return ID.at(0) % 2 == m; },
          Access::read(Sym<INT>("ID")));
      g.add_particles_local(sg);
      std::vector<Part> u;
      for (auto &p : v)
        if (p.i["ID"][0] % 2 == m)
          u.push_back(p);
      v = u;
    }
    for (auto &p : v)
      p.r.erase("B");
    // ids stay unique: the source group's particles get new ids
    complete(g, v);
    append(c.ref, v);
    // renumber in the source so that repeated insertion stays distinguishable
    const INT off = 1000 * (c.next_id++);
    particle_loop(
        std::static_pointer_cast<ParticleGroup>(c.other),
        [=](auto ID) { ID.at(0) += off; }, Access::write(Sym<INT>("ID")))
        ->execute();
    for (auto &p : c.oref)
      p.i["ID"][0] += off;
    break;
  }
  case ADD_DESC: {
    // one child per particle with odd ID, inheriting all but ID and V
    ParticleSpec s{ParticleProp(Sym<REAL>("V"), 3),
                   ParticleProp(Sym<INT>("ID"), 1)};
    auto spec = product_matrix_spec(s);
    const int nper = arg + 1;
    auto dp = std::make_shared<DescendantProducts>(c.w.target, spec, nper);
    auto sg = particle_sub_group(
        std::static_pointer_cast<ParticleGroup>(c.g),
        [=](auto ID) { return (ID.at(0) % 2) != 0; },
        Access::read(Sym<INT>("ID")));
    dp->reset((int)sg->get_npart_local());
    const INT off = 100000 * (1 + c.next_id++);
    particle_loop(
        sg,
        [=](auto DP, auto IX, auto ID) {
          for (int k = 0; k < nper; k++) {
            if ((ID.at(0) / 2 + k) % 3 == 2)
              continue; // not created: parent left unset
            DP.set_parent(IX, k);
            for (int d = 0; d < 3; d++)
              DP.at_real(IX, k, 0, d) = (REAL)(ID.at(0) * 8 + k * 3 + d);
            DP.at_int(IX, k, 0, 0) = off + 2 * (ID.at(0) * 4 + k);
          }
        },
        Access::write(dp), Access::read(ParticleLoopIndex{}),
        Access::read(Sym<INT>("ID")))
        ->execute();
    g.add_particles_local(dp);
    std::vector<Part> add;
    for (auto &p : c.ref) {
      const INT id = p.i["ID"][0];
      if (id % 2 == 0)
        continue;
      for (int k = 0; k < nper; k++) {
        if ((id / 2 + k) % 3 == 2)
          continue;
        Part q = p;
        q.i["ID"][0] = off + 2 * (id * 4 + k);
        for (int d = 0; d < 3; d++)
          q.r["V"][d] = (REAL)(id * 8 + k * 3 + d);
        add.push_back(q);
      }
    }
    append(c.ref, add);
    break;
  }
  case REM_VEC: {
    // remove rows selected by a pattern, listed in descending order for arg 1
    std::vector<INT> cells, layers;
    std::set<std::pair<INT, INT>> rm;
    for (int cell = 0; cell < NC; cell++)
      for (int r = 0; r < g.get_npart_cell(cell); r++) {
        bool sel = arg == 0 ? r == 0 : arg == 1 ? (r % 2 == 1) : cell < 3;
        if (sel) {
          cells.push_back(cell);
          layers.push_back(r);
          rm.insert({cell, r});
        }
      }
    if (arg == 1) {
      std::reverse(cells.begin(), cells.end());
      std::reverse(layers.begin(), layers.end());
    }
    model_remove(c, rm);
    g.remove_particles((int)cells.size(), cells, layers);
    break;
  }
  case REM_SUB: {
    const int m = arg;
    auto sg = particle_sub_group(
        std::static_pointer_cast<ParticleGroup>(c.g),
        [=](auto ID) { return m == 2 || ID.at(0) % 2 == m; },
        Access::read(Sym<INT>("ID")));
    g.remove_particles(sg);
    std::vector<Part> keep;
    for (auto &p : c.ref)
      if (!(m == 2 || p.i["ID"][0] % 2 == m))
        keep.push_back(p);
    c.ref = keep;
    break;
  }
  case CLEAR:
    g.clear();
    c.ref.clear();
    break;
  case DAT_ADD:
    if (arg == 0 && !c.has_extra) {
      g.add_particle_dat(Sym<REAL>("AA"), 2); // sorts before every other name
      c.has_extra = true;
    } else if (arg == 1 && !c.has_extra_int) {
      g.add_particle_dat(Sym<INT>("BB"), 3);
      c.has_extra_int = true;
    } else
      mc_discard();
    // existing particles: value undefined until written
    if (arg == 0) {
      particle_loop(
          std::static_pointer_cast<ParticleGroup>(c.g),
          [=](auto X, auto ID) {
            X.at(0) = ID.at(0);
            X.at(1) = 2.5 * ID.at(0);
          },
          Access::write(Sym<REAL>("AA")), Access::read(Sym<INT>("ID")))
          ->execute();
      for (auto &p : c.ref)
        p.r["AA"] = {(REAL)p.i["ID"][0], 2.5 * p.i["ID"][0]};
    } else {
      particle_loop(
          std::static_pointer_cast<ParticleGroup>(c.g),
          [=](auto X, auto ID) {
            for (int k = 0; k < 3; k++)
              X.at(k) = 7 * ID.at(0) + k;
          },
          Access::write(Sym<INT>("BB")), Access::read(Sym<INT>("ID")))
          ->execute();
      for (auto &p : c.ref)
        for (int k = 0; k < 3; k++)
          p.i["BB"].push_back(7 * p.i["ID"][0] + k);
    }
    break;
  case DAT_DEL:
    if (arg == 0 && c.has_extra) {
      g.remove_particle_dat(Sym<REAL>("AA"));
      c.has_extra = false;
      for (auto &p : c.ref)
        p.r.erase("AA");
    } else if (arg == 1 && c.has_extra_int) {
      g.remove_particle_dat(Sym<INT>("BB"));
      c.has_extra_int = false;
      for (auto &p : c.ref)
        p.i.erase("BB");
    } else
      mc_discard();
    break;
  case CELLMOVE: {
    // positions that put each particle into cell (id*? + arg)
    const int k = arg;
    particle_loop(
        std::static_pointer_cast<ParticleGroup>(c.g),
        [=](auto P, auto ID, auto A) {
          const INT t = k == 0 ? (ID.at(0) + 1) % 4 : k == 1 ? 2 : ID.at(0) % 2;
          P.at(0) = 0.25 + (t % 2);
          P.at(1) = 0.75 + (t / 2);
        },
        Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")),
        Access::read(Sym<INT>("A")))
        ->execute();
    g.cell_move();
    for (auto &p : c.ref) {
      const INT id = p.i["ID"][0];
      const INT t = k == 0 ? (id + 1) % 4 : k == 1 ? 2 : id % 2;
      p.r["P"] = {0.25 + (t % 2), 0.75 + (t / 2)};
      p.cell = t;
      p.i["CELL_ID"] = {t};
    }
    break;
  }
  case WRITE: {
    particle_loop(
        std::static_pointer_cast<ParticleGroup>(c.g),
        [=](auto V, auto A) {
          V.at(1) += 0.5;
          A.at(1) = A.at(0) - 1;
        },
        Access::write(Sym<REAL>("V")), Access::write(Sym<INT>("A")))
        ->execute();
    for (auto &p : c.ref) {
      p.r["V"][1] += 0.5;
      p.i["A"][1] = p.i["A"][0] - 1;
    }
    break;
  }
  case GET: {
    auto s = snapshot(g);
    std::vector<INT> cells, layers;
    std::vector<Part> want;
    std::map<INT, INT> row;
    for (auto &p : s) {
      const INT r = row[p.cell]++;
      if ((r + p.cell) % 2 == 0) {
        cells.push_back(p.cell);
        layers.push_back(r);
        want.push_back(p);
      }
    }
    std::reverse(cells.begin(), cells.end());
    std::reverse(layers.begin(), layers.end());
    std::reverse(want.begin(), want.end());
    auto ps = g.get_particles(cells, layers);
    MC_CHECK(ps->npart == (int)want.size(), "get_particles size");
    for (size_t k = 0; k < want.size(); k++) {
      for (auto &x : want[k].r)
        for (size_t q = 0; q < x.second.size(); q++)
          MC_CHECK(ps->at(Sym<REAL>(x.first), (int)k, (int)q) == x.second[q],
                   "get_particles ", x.first);
      for (auto &x : want[k].i)
        for (size_t q = 0; q < x.second.size(); q++)
          MC_CHECK(ps->at(Sym<INT>(x.first), (int)k, (int)q) == x.second[q],
                   "get_particles ", x.first);
    }
    break;
  }
  case GMOVE: {
    // single rank: every particle stays on the rank, contents unchanged apart
    // from MPI rank bookkeeping
    particle_loop(
        std::static_pointer_cast<ParticleGroup>(c.g),
        [=](auto P, auto C) {
          P.at(0) = 0.5 + (C.at(0) % 2);
          P.at(1) = 0.5 + (C.at(0) / 2);
        },
        Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("CELL_ID")))
        ->execute();
    g.hybrid_move();
    g.cell_move();
    for (auto &p : c.ref)
      p.r["P"] = {0.5 + (p.cell % 2), 0.5 + (p.cell / 2)};
    break;
  }
  }
}

static int nargs(int op) {
  switch (op) {
  case ADD_SET:
    return 4;
  case ADD_SET_PARTIAL:
    return 3;
  case ADD_PM:
    return 3;
  case ADD_SUB:
  case ADD_DESC:
  case DAT_ADD:
  case DAT_DEL:
    return 2;
  case REM_VEC:
  case REM_SUB:
  case CELLMOVE:
    return 3;
  default:
    return 1;
  }
}

static void sequence(int depth, bool preload) {
  int ops[8], args[8];
  for (int k = 0; k < depth; k++) {
    ops[k] = mc::choose(NOPS, "op");
    args[k] = mc::choose(nargs(ops[k]), "arg");
    mc_note("%s(%d)", names[ops[k]], args[k]);
  }
  mc::ranks(1, [&](int) {
    Ctx c;
    if (preload) {
      step(c, ADD_SET, 2, true);
      verify(c, "preload");
    }
    for (int k = 0; k < depth; k++) {
      step(c, ops[k], args[k], true);
      verify(c, names[ops[k]]);
    }
    if (c.ref.size() > 0)
      mc::nontrivial();
    hash_state(snapshot(*c.g));
  });
}
static void seq_empty() { sequence(mc_tier ? 4 : 3, false); }
static void seq_loaded() { sequence(mc_tier ? 4 : 3, true); }

const mc_scenario mc_scenarios[] = {{"from_empty", seq_empty},
                                    {"from_loaded", seq_loaded}};
const int mc_num_scenarios = 2;
int main(int c, char **v) {
  return mc_main(c, v, mc_scenarios, mc_num_scenarios);
}

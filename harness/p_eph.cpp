// Ephemeral data of sub groups and access through symbol vectors follow the
// properties that exist now, under every history of adding and removing them.
#include "model.hpp"
using namespace H;

static const int NC = 2, CAP = 16;
static ParticleSpec eph_spec() {
  return ParticleSpec{ParticleProp(Sym<REAL>("P"), 2, true),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("ID"), 1),
                      ParticleProp(Sym<INT>("Q"), 1),
                      ParticleProp(Sym<INT>("A"), 1),
                      ParticleProp(Sym<REAL>("V"), 2)};
}
static Part mkpart(int id, int cell) {
  Part p;
  p.cell = cell;
  p.r["P"] = {cell + 0.25 + 0.01 * id, 0.5};
  p.r["V"] = {100.5 + id, 200.5 + id};
  p.i["ID"] = {id};
  p.i["CELL_ID"] = {cell};
  p.i["Q"] = {id % 2};
  p.i["A"] = {500 + id};
  return p;
}
// What the particle (or, for a sub group, its ephemeral copy) should hold.
template <typename T> struct Model {
  bool dat = false, eph = false;
  int nd = 0, ne = 0;
  std::map<INT, std::vector<T>> d, e; // by particle id
};

enum Op {
  READ_SV,    // through one vector holding both kinds of property
  READ_SYM,   // through plain symbols
  WRITE_SV,   // write all through the vector
  REMOVE_DAT, // of the group
  ADD_DAT,
  ADD_EPH,
  REMOVE_EPH,
  UNRELATED, // write a property the definition of the sub group does not use
  REDEFINE,  // write the property the sub group selects on
  MOVE,
  OPS
};

struct Run {
  World w;
  TGP g;
  int kind;
  ParticleSubGroupSharedPtr sub;
  ParticleSpec spec = eph_spec();
  std::map<INT, int> cell, q;
  Model<REAL> V; // the property under test
  Model<INT> A;  // stays in place, also ephemeral sometimes
  int stamp = 0;

  Run(int kind) : w({NC, 1}), kind(kind) {
    set_param(w, "LOOP_LOCAL_SIZE", 2);
    g = std::make_shared<TG>(w.domain, spec, w.target);
    std::vector<Part> v;
    for (int c : {0, 0, 0, 1, 1, 0, 1})
      v.push_back(mkpart((int)v.size(), c));
    g->add_particles_local(to_set(v, spec));
    V.dat = A.dat = true;
    V.nd = 2;
    A.nd = 1;
    for (auto &p : v) {
      const INT id = p.i["ID"][0];
      cell[id] = (int)p.cell;
      q[id] = (int)p.i["Q"][0];
      V.d[id] = p.r["V"];
      A.d[id] = p.i["A"];
    }
    if (kind == 1)
      sub = particle_sub_group(
          pg(g), [](auto Q) { return Q.at(0) == 1; },
          Access::read(Sym<INT>("Q")));
    else if (kind == 2)
      sub = particle_sub_group(pg(g));
    else if (kind == 3)
      sub = static_particle_sub_group(
          pg(g), [](auto Q) { return Q.at(0) == 1; },
          Access::read(Sym<INT>("Q")));
    if (sub)
      sub->create_if_required();
  }
  std::set<INT> fixed; // members of the static sub group
  bool member(INT id) {
    if (kind == 0 || kind == 2)
      return true;
    if (kind == 3)
      return id % 2 == 1;
    return q[id] == 1;
  }
  void drop_eph() {
    V.eph = A.eph = false;
    V.e.clear();
    A.e.clear();
  }
  template <typename F> void with(F f) {
    if (sub)
      f(sub);
    else
      f(pg(g));
  }
  // Values a kernel over the group sees: an ephemeral property shadows the
  // particle property of that name.
  template <typename T> std::vector<T> want(Model<T> &m, INT id) {
    if (m.eph)
      return m.e.count(id) ? m.e[id] : std::vector<T>(m.ne, (T)0);
    return m.d[id];
  }
  void check_contains() {
    if (!sub)
      return;
    MC_CHECK(sub->contains_ephemeral_dat(Sym<REAL>("V")) == V.eph,
             "V ephemeral: ", !V.eph, " expected ", V.eph);
    MC_CHECK(sub->contains_ephemeral_dat(Sym<INT>("A")) == A.eph,
             "A ephemeral: ", !A.eph, " expected ", A.eph);
    MC_CHECK(!sub->contains_ephemeral_dat(Sym<REAL>("W")) &&
                 !sub->contains_ephemeral_dat(Sym<INT>("V")) &&
                 !sub->contains_ephemeral_dat(Sym<REAL>("A")),
             "unknown ephemeral dat");
    if (V.eph)
      MC_CHECK(sub->get_ephemeral_dat(Sym<REAL>("V"))->ncomp == V.ne,
               "components");
  }
  void read(bool sv) {
    if (!V.dat && !V.eph)
      return;
    const bool ve = V.eph, ae = A.eph;
    const int nv = ve ? V.ne : V.nd;
    LocalArray<INT> hits(w.target, CAP, 0), av(w.target, CAP, 0);
    LocalArray<REAL> vv(w.target, CAP * 3, 0);
    auto put = [=](auto &H, auto &AV, auto &VV, INT id, INT a, auto get) {
      H.fetch_add(id, 1);
      AV.at(id) = a;
      for (int c = 0; c < nv; c++)
        VV.at(id * 3 + c) = get(c);
    };
    with([&](auto s) {
      if (sv) {
        auto x = sym_vector<REAL>(s, {Sym<REAL>("P"), Sym<REAL>("V")});
        auto y = sym_vector<INT>(s, {Sym<INT>("A"), Sym<INT>("ID")});
        particle_loop(
            s,
            [=](auto I, auto X, auto Y, auto H, auto AV, auto VV) {
              const INT id = Y.at(1, 0);
              const int how = id % 3;
              const INT a = ae ? (how ? Y.at_ephemeral(0, 0)
                                      : Y.at_ephemeral(0, I, 0))
                               : (how == 0   ? Y.at(0, 0)
                                  : how == 1 ? Y.at(0, I, 0)
                                             : Y.at(0, I.cell, I.layer, 0));
              put(H, AV, VV, id, a, [&](int c) {
                return ve ? (how ? X.at_ephemeral(1, c)
                                 : X.at_ephemeral(1, I, c))
                          : (how ? X.at(1, c) : X.at(1, I, c));
              });
            },
            Access::read(ParticleLoopIndex{}), Access::read(x),
            Access::read(y), Access::add(hits), Access::write(av),
            Access::write(vv))
            ->execute();
      } else {
        particle_loop(
            s,
            [=](auto V, auto A, auto ID, auto H, auto AV, auto VV) {
              put(H, AV, VV, ID.at(0), ae ? A.at_ephemeral(0) : A.at(0),
                  [&](int c) { return ve ? V.at_ephemeral(c) : V.at(c); });
            },
            Access::read(Sym<REAL>("V")), Access::read(Sym<INT>("A")),
            Access::read(Sym<INT>("ID")), Access::add(hits), Access::write(av),
            Access::write(vv))
            ->execute();
      }
    });
    auto h = hits.get(), a = av.get();
    auto v = vv.get();
    for (auto &x : cell) {
      const INT id = x.first;
      MC_CHECK(h[id] == (member(id) ? 1 : 0), "particle ", id, " visited ",
               h[id], " times");
      if (!member(id))
        continue;
      MC_CHECK(a[id] == want(A, id)[0], "A of ", id, " is ", a[id], " not ",
               want(A, id)[0]);
      auto wv = want(V, id);
      for (int c = 0; c < nv; c++)
        MC_CHECK(v[id * 3 + c] == wv[c], "V of ", id, " component ", c, " is ",
                 v[id * 3 + c], " not ", wv[c]);
    }
  }
  void write() {
    if (!V.dat && !V.eph)
      return;
    const bool ve = V.eph, ae = A.eph;
    const int nv = ve ? V.ne : V.nd;
    const int s0 = ++stamp * 1000;
    with([&](auto s) {
      auto x = sym_vector<REAL>(s, {Sym<REAL>("P"), Sym<REAL>("V")});
      auto y = sym_vector<INT>(s, {Sym<INT>("A"), Sym<INT>("ID")});
      particle_loop(
          s,
          [=](auto I, auto X, auto Y) {
            const INT id = Y.at(1, I, 0);
            if (ae)
              Y.at_ephemeral(0, 0) = s0 + id;
            else
              Y.at(0, 0) = s0 + id;
            for (int c = 0; c < nv; c++)
              if (ve && c % 2)
                X.at_ephemeral(1, I, c) = s0 + id + c * 0.5;
              else if (ve)
                X.at_ephemeral(1, c) = s0 + id + c * 0.5;
              else
                X.at(1, c) = s0 + id + c * 0.5;
          },
          Access::read(ParticleLoopIndex{}), Access::write(x),
          Access::write(y))
          ->execute();
    });
    for (auto &x : cell)
      if (member(x.first)) {
        (ae ? A.e : A.d)[x.first] = {s0 + x.first};
        std::vector<REAL> n;
        for (int c = 0; c < nv; c++)
          n.push_back(s0 + x.first + c * 0.5);
        (ve ? V.e : V.d)[x.first] = n;
      }
  }
  void step(int op) {
    switch (op) {
    case READ_SV:
      read(true);
      break;
    case READ_SYM:
      read(false);
      break;
    case WRITE_SV:
      write();
      break;
    case REMOVE_DAT:
      if (!V.dat)
        mc_discard();
      g->remove_particle_dat(Sym<REAL>("V"));
      V.dat = false;
      V.d.clear();
      break;
    case ADD_DAT: {
      if (V.dat)
        mc_discard();
      V.nd = V.nd == 2 ? 3 : 2;
      g->add_particle_dat(Sym<REAL>("V"), V.nd);
      V.dat = true;
      const int n = V.nd, s0 = ++stamp * 1000;
      particle_loop(
          pg(g),
          [=](auto ID, auto V) {
            for (int c = 0; c < n; c++)
              V.at(c) = s0 + ID.at(0) + c;
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("V")))
          ->execute();
      for (auto &x : cell)
        for (int c = 0; c < n; c++)
          V.d[x.first].push_back(s0 + x.first + c);
      break;
    }
    case ADD_EPH: {
      if (!sub || V.eph)
        mc_discard();
      V.ne = V.ne == 1 ? 3 : 1;
      sub->add_ephemeral_dat(Sym<REAL>("V"), V.ne);
      if (!A.eph)
        sub->add_ephemeral_dat(Sym<INT>("A"), 1);
      V.eph = A.eph = true;
      V.e.clear();
      A.e.clear();
      for (auto &x : cell) {
        V.e[x.first].resize(V.ne, 0);
        A.e[x.first].resize(1, 0);
      }
      break;
    }
    case REMOVE_EPH:
      if (!sub || !V.eph)
        mc_discard();
      sub->remove_ephemeral_dat(Sym<REAL>("V"));
      sub->remove_ephemeral_dat(Sym<INT>("A"));
      drop_eph();
      break;
    case UNRELATED:
      particle_loop(
          pg(g), [](auto P) { P.at(1) += 0.01; },
          Access::write(Sym<REAL>("P")))
          ->execute();
      break;
    case REDEFINE:
      particle_loop(
          pg(g),
          [](auto ID, auto Q) {
            if (ID.at(0) % 3 == 0)
              Q.at(0) = 1 - Q.at(0);
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("Q")))
          ->execute();
      for (auto &x : q)
        if (x.first % 3 == 0)
          x.second = 1 - x.second;
      if (kind == 1)
        drop_eph();
      break;
    case MOVE: // odd particles change cell
      if (kind == 3) // static sub groups do not survive
        mc_discard();
      particle_loop(
          pg(g),
          [](auto P, auto ID, auto C) {
            if (ID.at(0) % 2) {
              P.at(0) = P.at(0) < 1.0 ? P.at(0) + 1.0 : P.at(0) - 1.0;
              C.at(0) = 1 - C.at(0);
            }
          },
          Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")),
          Access::write(Sym<INT>("CELL_ID")))
          ->execute();
      g->cell_move();
      for (auto &x : cell)
        if (x.first % 2)
          x.second = 1 - x.second;
      drop_eph();
      break;
    }
  }
};

static void history(int kind, int depth) {
  mc_set_sched_bound(0);
  mc_set_item_order(0);
  mc::ranks(1, [&](int) {
    Run r(kind);
    bool ch = false;
    for (int d = 0; d < depth; d++) {
      const int op = mc::choose(OPS, "op");
      r.step(op);
      ch |= op > READ_SYM;
      mc::outcome(op);
    }
    r.check_contains();
    r.read(true);
    r.read(false);
    if (ch)
      mc::nontrivial();
    // the particle properties themselves
    std::vector<Part> ref;
    for (auto &x : r.cell) {
      Part p;
      p.cell = x.second;
      p.i["ID"] = {x.first};
      p.i["Q"] = {r.q[x.first]};
      p.i["A"] = r.A.d[x.first];
      if (r.V.dat)
        p.r["V"] = r.V.d[x.first];
      ref.push_back(p);
    }
    compare(snapshot(*r.g), ref, {"NESO_MPI_RANK", "P", "CELL_ID"}, "end");
    r.sub.reset();
    r.g->free();
  });
}
static void on_group() { history(0, mc_tier ? 5 : 4); }
static void on_selected() { history(1, mc_tier ? 5 : 4); }
static void on_whole() { history(2, mc_tier ? 5 : 4); }
static void on_static() { history(3, mc_tier ? 5 : 4); }

const mc_scenario mc_scenarios[] = {{"group", on_group},
                                    {"selected", on_selected},
                                    {"whole", on_whole},
                                    {"static", on_static}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) { return mc_main(c, v, mc_scenarios, mc_num_scenarios); }

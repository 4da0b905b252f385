// A sub group always denotes the particles its definition selects from the
// group as it is now: every sequence of modifications and uses is enumerated
// and the selected set is recomputed independently from the group's contents.
#include "model.hpp"
using namespace H;

static ParticleSpec sub_spec() {
  return ParticleSpec{ParticleProp(Sym<REAL>("P"), 2, true),
                      ParticleProp(Sym<REAL>("V"), 1),
                      ParticleProp(Sym<INT>("A"), 2),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("ID"), 1),
                      ParticleProp(Sym<INT>("N"), 2)};
}
static const int NC = 3;

struct View { // current contents: per cell, in layer order
  std::vector<Part> parts;
  std::map<INT, Part> by_id;
  std::map<INT, INT> layer;
  std::vector<std::vector<INT>> cells;
};
static View view(TG &g) {
  View v;
  v.parts = snapshot(g);
  v.cells.resize(NC);
  for (auto &p : v.parts) {
    const INT id = p.i["ID"][0];
    MC_CHECK(v.by_id.count(id) == 0, "duplicate particle ", id);
    v.by_id[id] = p;
    v.layer[id] = (INT)v.cells[p.cell].size();
    v.cells[p.cell].push_back(id);
  }
  return v;
}
static INT A(const Part &p, int c = 0) { return p.i.at("A")[c]; }
static REAL V(const Part &p) { return p.r.at("V")[0]; }

// What a sub group is allowed to contain: all of `must`, or per cell exactly
// `count[c]` of `may`.
struct Sub {
  ParticleSubGroupSharedPtr s;
  std::function<bool(const View &, INT)> in; // exact definition
  // truncation / discarding of a parent whose order is not specified
  bool counted = false;
  std::function<INT(INT)> count;
  bool whole = false;
  int dep = 0; // bit 0: A, bit 1: V (content changes when written)
};

static bool selA(const Part &p) { return A(p) % 2 == 0; }
static bool selV(const Part &p) { return V(p) > 1.5; }

struct Kind {
  const char *name;
  std::function<std::vector<Sub>(ParticleGroupSharedPtr)> make;
};

template <typename T> static ParticleSubGroupSharedPtr filtA(T g) {
  return particle_sub_group(
      g, [=](auto A) { return A.at(0) % 2 == 0; }, Access::read(Sym<INT>("A")));
}
template <typename T> static ParticleSubGroupSharedPtr filtV(T g) {
  return particle_sub_group(
      g, [=](auto V) { return V.at(0) > 1.5; }, Access::read(Sym<REAL>("V")));
}
static auto inA = [](const View &v, INT id) { return selA(v.by_id.at(id)); };
static auto inV = [](const View &v, INT id) { return selV(v.by_id.at(id)); };
static auto inAV = [](const View &v, INT id) {
  return selA(v.by_id.at(id)) && selV(v.by_id.at(id));
};

static std::vector<Kind> kinds() {
  std::vector<Kind> k;
  k.push_back({"filter", [](auto g) {
                 return std::vector<Sub>{{filtA(g), inA}};
               }});
  k.push_back({"filter_of_filter", [](auto g) {
                 auto p = filtA(g);
                 return std::vector<Sub>{{filtV(p), inAV}, {p, inA}};
               }});
  k.push_back({"whole", [](auto g) {
                 Sub s{particle_sub_group(g),
                       [](const View &, INT) { return true; }};
                 s.whole = true;
                 auto c = particle_sub_group(s.s);
                 Sub t{c, [](const View &, INT) { return true; }};
                 t.whole = true;
                 return std::vector<Sub>{s, t, {filtA(g), inA}, {filtV(c), inV}};
               }});
  k.push_back({"copy", [](auto g) {
                 auto p = filtA(g);
                 auto c = particle_sub_group(p);
                 return std::vector<Sub>{
                     {c, inA}, {particle_sub_group(c, 0, NC), inA}};
               }});
  k.push_back({"loop_index", [](auto g) {
                 auto s = particle_sub_group(
                     g, [=](auto I) { return I.layer % 2 == 1 || I.cell == 2; },
                     Access::read(ParticleLoopIndex{}));
                 auto t = particle_sub_group(
                     g, [=](auto C) { return C.get() % 2 == 1; },
                     Access::read(CellInfoNPart{}));
                 return std::vector<Sub>{
                     {s,
                      [](const View &v, INT id) {
                        return v.layer.at(id) % 2 == 1 ||
                               v.by_id.at(id).cell == 2;
                      }},
                     {t, [](const View &v, INT id) {
                        return v.cells[v.by_id.at(id).cell].size() % 2 == 1;
                      }}};
               }});
  k.push_back({"cells", [](auto g) {
                 auto p = filtA(g);
                 auto in1 = [](const View &v, INT id) {
                   return v.by_id.at(id).cell == 1;
                 };
                 return std::vector<Sub>{
                     {particle_sub_group(g, 1), in1},
                     {particle_sub_group(g, 1, 3),
                      [](const View &v, INT id) {
                        return v.by_id.at(id).cell >= 1;
                      }},
                     {particle_sub_group(p, 1),
                      [](const View &v, INT id) {
                        return v.by_id.at(id).cell == 1 && inA(v, id);
                      }},
                     {particle_sub_group(p, 0, 2), [](const View &v, INT id) {
                        return v.by_id.at(id).cell < 2 && inA(v, id);
                      }}};
               }});
  k.push_back({"truncate_group", [](auto g) {
                 auto lt = [](int n) {
                   return [n](const View &v, INT id) {
                     return v.layer.at(id) < n;
                   };
                 };
                 auto ge = [](int n) {
                   return [n](const View &v, INT id) {
                     return v.layer.at(id) >= n;
                   };
                 };
                 return std::vector<Sub>{
                     {particle_sub_group_truncate(g, 1), lt(1)},
                     {particle_sub_group_truncate(g, 3), lt(3)},
                     {particle_sub_group_discard(g, 1), ge(1)},
                     {particle_sub_group_discard(g, 3), ge(3)},
                     {particle_sub_group_truncate(particle_sub_group(g), 2),
                      lt(2)},
                     {particle_sub_group_discard(particle_sub_group(g), 2),
                      ge(2)}};
               }});
  k.push_back({"truncate_sub", [](auto g) {
                 auto p = filtA(g);
                 Sub t{particle_sub_group_truncate(p, 1), inA, true,
                       [](INT n) { return std::min<INT>(n, 1); }};
                 Sub d{particle_sub_group_discard(p, 1), inA, true,
                       [](INT n) { return std::max<INT>(n - 1, 0); }};
                 return std::vector<Sub>{t, d, {p, inA}};
               }});
  k.push_back({"union", [](auto g) {
                 auto odd = particle_sub_group(
                     g, [=](auto A) { return A.at(0) % 2 != 0; },
                     Access::read(Sym<INT>("A")));
                 auto p = filtV(filtA(g));
                 auto c = particle_sub_group(odd, 1, 2);
                 std::vector<ParticleSubGroupSharedPtr> v1{odd, p}, v2{p, c},
                     v3{p};
                 return std::vector<Sub>{
                     {particle_sub_group_disjoint_union(v1),
                      [](const View &v, INT id) {
                        return !inA(v, id) || inV(v, id);
                      }},
                     {particle_sub_group_disjoint_union(v2),
                      [](const View &v, INT id) {
                        return inA(v, id)
                                   ? inV(v, id)
                                   : v.by_id.at(id).cell == 1;
                      }},
                     {particle_sub_group_disjoint_union(v3), inAV}};
               }});
  k.push_back({"union_mixed", [](auto g) {
                 // the members depend on different properties
                 auto a = filtA(particle_sub_group(g, 0));
                 auto b = filtV(particle_sub_group(g, 1, 3));
                 std::vector<ParticleSubGroupSharedPtr> v1{a, b}, v2{b, a};
                 auto in = [](const View &v, INT id) {
                   return v.by_id.at(id).cell == 0 ? inA(v, id) : inV(v, id);
                 };
                 auto u = particle_sub_group_disjoint_union(v1);
                 return std::vector<Sub>{
                     {u, in}, {particle_sub_group_disjoint_union(v2), in}};
               }});
  k.push_back({"two_props", [](auto g) {
                 auto s = particle_sub_group(
                     g, [=](auto A, auto V) {
                       return A.at(0) % 2 == 0 && V.at(0) > 1.5;
                     },
                     Access::read(Sym<INT>("A")), Access::read(Sym<REAL>("V")));
                 auto c = particle_sub_group(s, 1, 3);
                 return std::vector<Sub>{
                     {s, inAV}, {c, [](const View &v, INT id) {
                                   return v.by_id.at(id).cell >= 1 &&
                                          inAV(v, id);
                                 }}};
               }});
  k.push_back({"partition", [](auto g) {
                 auto v = particle_group_partition(g, Sym<INT>("A"), 3);
                 std::vector<Sub> r;
                 for (int k : {2, 0, 1})
                   r.push_back({v[k], [k](const View &w, INT id) {
                                  return A(w.by_id.at(id)) == k;
                                }});
                 return r;
               }});
  k.push_back({"partition_sub", [](auto g) {
                 auto v = particle_group_partition(filtV(g), Sym<INT>("A"), 3);
                 v[1] = nullptr; // one partition is released early
                 std::vector<Sub> r;
                 for (int k : {0, 2})
                   r.push_back({v[k], [k](const View &w, INT id) {
                                  return A(w.by_id.at(id)) == k && inV(w, id);
                                }});
                 return r;
               }});
  k.push_back({"sym_vector", [](auto g) {
                 auto s = particle_sub_group(
                     g,
                     [=](auto S, auto I) {
                       return (S.at(0, 0) + S.at(1, 0)) % 2 == 0;
                     },
                     Access::read(sym_vector<INT>(
                         g, {Sym<INT>("A"), Sym<INT>("ID")})),
                     Access::read(ParticleLoopIndex{}));
                 return std::vector<Sub>{{s, [](const View &v, INT id) {
                                            return (A(v.by_id.at(id)) + id) %
                                                       2 ==
                                                   0;
                                          }}};
               }});
  k.push_back(
      {"exclusive_scan", [](auto g) {
         using namespace ParticleSubGroupImplementation;
         auto sel = std::dynamic_pointer_cast<SubGroupSelectorBase>(
             std::make_shared<SubGroupSelectorExclusiveScan>(
                 g, [=](auto A) { return A.at(0) % 2 == 0; },
                 Access::read(Sym<INT>("A"))));
         auto s = std::make_shared<ParticleSubGroup>(sel);
         auto p = filtV(g);
         auto sel2 = std::dynamic_pointer_cast<SubGroupSelectorBase>(
             std::make_shared<SubGroupSelectorExclusiveScan>(
                 p, [=](auto A) { return A.at(0) % 2 == 0; },
                 Access::read(Sym<INT>("A"))));
         return std::vector<Sub>{{s, inA},
                                 {std::make_shared<ParticleSubGroup>(sel2),
                                  inAV},
                                 {filtV(s), inAV}};
       }});
  return k;
}

// everything observable about the sub group
static std::vector<std::set<INT>> observe(Sub &u, TG &g, const View &v,
                                          bool full) {
  auto &s = u.s;
  std::vector<std::set<INT>> got(NC);
  const INT n = s->get_npart_local();
  std::vector<INT> np(NC);
  INT tot = 0;
  for (int c = 0; c < NC; c++)
    tot += np[c] = s->get_npart_cell(c);
  MC_CHECK(tot == n, "total ", n, " but cells sum to ", tot);
  auto &S = s->get_selection();
  MC_CHECK(S.ncell == NC && S.npart_local == n, "selection size");
  std::vector<int> dn(NC);
  std::vector<INT> de(NC);
  g.sycl_target->queue.memcpy(dn.data(), S.d_npart_cell, NC * sizeof(int))
      .wait_and_throw();
  g.sycl_target->queue.memcpy(de.data(), S.d_npart_cell_es, NC * sizeof(INT))
      .wait_and_throw();
  INT es = 0;
  for (int c = 0; c < NC; c++) {
    MC_CHECK(dn[c] == np[c], "device occupancy of cell ", c, ": ", dn[c],
             " host ", np[c]);
    MC_CHECK(de[c] == es, "device occupancy scan of cell ", c);
    es += np[c];
  }
  if (full) {
    // by reading the particles of the sub group
    std::vector<INT> cs, ls;
    for (int c = 0; c < NC; c++)
      for (INT k = 0; k < np[c]; k++) {
        cs.push_back(c);
        ls.push_back(k);
      }
    auto ps = s->get_particles(cs, ls);
    for (size_t k = 0; k < cs.size(); k++) {
      const INT id = ps->at(Sym<INT>("ID"), (int)k, 0);
      MC_CHECK(v.by_id.count(id), "no particle ", id);
      const Part &p = v.by_id.at(id);
      MC_CHECK(p.cell == cs[k], "particle ", id, " read from cell ", cs[k],
               " lives in ", p.cell);
      MC_CHECK(ps->at(Sym<REAL>("V"), (int)k, 0) == V(p) &&
                   ps->at(Sym<INT>("A"), (int)k, 1) == A(p, 1),
               "values of particle ", id);
      MC_CHECK(got[cs[k]].insert(id).second, "particle ", id, " twice");
    }
  }
  return got;
}

static void check_sub(Sub &u, TG &g, ParticleLoopSharedPtr old_loop,
                      LocalArray<INT> &mark, LocalArray<INT> &cnt, bool full) {
  auto v = view(g);
  auto got = observe(u, g, v, full);
  // by looping over it: a loop made beforehand and a new one
  for (int pass = 0; pass < 2; pass++) {
    mark.fill(0);
    cnt.fill(0);
    ParticleLoopSharedPtr L = old_loop;
    if (pass)
      L = particle_loop(
          u.s,
          [=](auto ID, auto I, auto M, auto C) {
            M.fetch_add(ID.at(0), 1);
            C.fetch_add(0, 1);
            C.fetch_add(1, I.get_loop_linear_index());
          },
          Access::read(Sym<INT>("ID")), Access::read(ParticleLoopIndex{}),
          Access::add(mark), Access::add(cnt));
    L->execute();
    auto m = mark.get();
    auto c = cnt.get();
    const INT n = u.s->get_npart_local();
    MC_CHECK(c[0] == n, pass ? "new" : "old", " loop visits ", c[0], " of ", n);
    MC_CHECK(c[1] == n * (n - 1) / 2, "loop indices");
    std::vector<std::set<INT>> lp(NC);
    for (size_t id = 0; id < m.size(); id++) {
      MC_CHECK(m[id] == 0 || (m[id] == 1 && v.by_id.count(id)), "particle ", id,
               " visited ", m[id], " times");
      if (m[id])
        lp[v.by_id.at(id).cell].insert(id);
    }
    if (full || pass)
      MC_CHECK(lp == got, "loop visits other particles than are read back");
    else
      got = lp;
  }
  for (int c = 0; c < NC; c++) {
    std::set<INT> want;
    for (INT id : v.cells[c])
      if (u.in(v, id))
        want.insert(id);
    if (u.counted) {
      MC_CHECK((INT)got[c].size() == u.count((INT)want.size()), "cell ", c,
               " holds ", got[c].size(), " of ", want.size());
      for (INT id : got[c])
        MC_CHECK(want.count(id), "particle ", id, " not in the parent");
    } else {
      for (INT id : want)
        MC_CHECK(got[c].count(id), "particle ", id, " of cell ", c, " missing");
      MC_CHECK(got[c].size() == want.size(), "cell ", c, " holds extra");
    }
  }
}

enum Op {
  USE,
  WA_ALL,
  WA_SUB,
  WV,
  ADD,
  REMOVE,
  MOVE,
  CLEAR,
  UNRELATED,
  HYBRID,
  ADD_SELF,
  NOP_
};

static Part mkpart(int id, int cell) {
  Part p;
  p.cell = cell;
  p.r["P"] = {cell + 0.25 + 0.01 * id, 0.5};
  p.r["V"] = {(REAL)((id * 5) % 4)};
  p.i["A"] = {(INT)((id * 7) % 4) - (id == 5 ? 2 : 0), (INT)(10 + id)};
  p.i["CELL_ID"] = {cell};
  p.i["ID"] = {id};
  p.i["N"] = {0, 0};
  return p;
}
static const int MAXID = 64;

static void seq(int depth, int nstart) {
  static const auto K = kinds();
  const int kind = mc::choose((int)K.size(), "kind");
  mc_note(K[kind].name);
  std::vector<int> ops;
  mc::ranks(1, [&](int) {
    World w({NC, 1});
    set_param(w, "LOOP_LOCAL_SIZE", 2);
    auto spec = sub_spec();
    auto g = std::make_shared<TG>(w.domain, spec, w.target);
    int next = 0;
    auto add = [&](std::vector<int> cells) {
      std::vector<Part> v;
      for (int c : cells)
        v.push_back(mkpart(next++, c));
      g->add_particles_local(to_set(v, spec));
    };
    if (nstart)
      add({0, 0, 0, 0, 1, 1, 2});
    if (nstart == 2) // nothing satisfies the conditions to begin with
      particle_loop(
          pg(g),
          [=](auto A, auto V) {
            A.at(0) = 3;
            V.at(0) = 1.0;
          },
          Access::write(Sym<INT>("A")), Access::write(Sym<REAL>("V")))
          ->execute();
    auto subs = K[kind].make(pg(g));
    LocalArray<INT> mark(w.target, MAXID, 0), cnt(w.target, 2, 0);
    std::vector<ParticleLoopSharedPtr> loops;
    for (auto &u : subs)
      loops.push_back(particle_loop(
          u.s,
          [=](auto ID, auto I, auto M, auto C) {
            M.fetch_add(ID.at(0), 1);
            C.fetch_add(0, 1);
            C.fetch_add(1, I.get_loop_linear_index());
          },
          Access::read(Sym<INT>("ID")), Access::read(ParticleLoopIndex{}),
          Access::add(mark), Access::add(cnt)));
    auto wa = particle_loop(
        pg(g), [=](auto A, auto ID) { A.at(0) = (A.at(0) + ID.at(0)) % 4; },
        Access::write(Sym<INT>("A")), Access::read(Sym<INT>("ID")));
    bool changed = false;
    for (int d = 0; d < depth; d++) {
      const int op = mc::choose(NOP_, "op");
      const int n = (int)g->get_npart_local();
      switch (op) {
      case USE: // only the first sub group is brought up to date
        subs[0].s->get_npart_local();
        break;
      case WA_ALL:
        wa->execute();
        changed |= n > 0;
        break;
      case WA_SUB: { // a loop over the sub group changes its own definition
        auto m0 = subs.back().s;
        particle_loop(
            m0, [=](auto A) { A.at(0) = (A.at(0) + 1) % 4; },
            Access::write(Sym<INT>("A")))
            ->execute();
        changed |= n > 0;
        break;
      }
      case WV:
        particle_loop(
            pg(g), [=](auto V) { V.at(0) = 3.0 - V.at(0); },
            Access::write(Sym<REAL>("V")))
            ->execute();
        changed |= n > 0;
        break;
      case ADD:
        if (next + 3 > MAXID)
          mc_discard();
        add({1, 2, 1});
        changed = true;
        break;
      case REMOVE: {
        std::vector<INT> cs, ls;
        for (int c = 0; c < NC; c++)
          if (g->get_npart_cell(c) > 0) {
            cs.push_back(c);
            ls.push_back(0);
          }
        g->remove_particles((int)cs.size(), cs, ls);
        changed |= n > 0;
        break;
      }
      case MOVE: // to the next cell, through the cell ids
        particle_loop(
            pg(g),
            [=](auto P, auto ID) {
              if (ID.at(0) % 2) {
                P.at(0) += 1.0;
                if (P.at(0) >= 3.0)
                  P.at(0) -= 3.0;
              }
            },
            Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))
            ->execute();
        g->cell_move();
        changed |= n > 0;
        break;
      case CLEAR:
        g->clear();
        break;
      case UNRELATED: // a property no definition mentions
        particle_loop(
            pg(g), [=](auto N) { N.at(1) += 1; }, Access::write(Sym<INT>("N")))
            ->execute();
        break;
      case HYBRID:
        g->hybrid_move();
        break;
      case ADD_SELF: { // append copies of the particles of a sub group
        auto h = std::make_shared<TG>(w.domain, spec, w.target);
        h->add_particles_local(subs[0].s);
        particle_loop(
            pg(h), [=](auto ID, auto A) { ID.at(0) += 32; A.at(0) = 0; },
            Access::write(Sym<INT>("ID")), Access::write(Sym<INT>("A")))
            ->execute();
        bool ok = true;
        auto cur = view(*g);
        for (auto &p : snapshot(*h))
          ok &= p.i["ID"][0] < MAXID && !cur.by_id.count(p.i["ID"][0]);
        if (!ok)
          mc_discard();
        g->add_particles_local(pg(h));
        break;
      }
      }
    }
    if (changed)
      mc::nontrivial();
    for (size_t k = 0; k < subs.size(); k++)
      check_sub(subs[k], *g, loops[k], mark, cnt, true);
    // the loops above left everything in place
    for (size_t k = 0; k < subs.size(); k++)
      check_sub(subs[k], *g, loops[k], mark, cnt, false);
    hash_state(snapshot(*g));
  });
}
// Properties written without a particle loop: cell by cell or value by value
// from the host, or by device code through a borrowed pointer.
static void direct_writes() {
  static const auto K = kinds();
  const int kind = mc::choose((int)K.size(), "kind");
  mc_note(K[kind].name);
  mc::ranks(1, [&](int) {
    World w({NC, 1});
    auto spec = sub_spec();
    auto g = std::make_shared<TG>(w.domain, spec, w.target);
    std::vector<Part> v;
    for (int c : {0, 0, 0, 0, 1, 1, 2})
      v.push_back(mkpart((int)v.size(), c));
    g->add_particles_local(to_set(v, spec));
    auto subs = K[kind].make(pg(g));
    LocalArray<INT> mark(w.target, MAXID, 0), cnt(w.target, 2, 0);
    std::vector<ParticleLoopSharedPtr> loops;
    for (auto &u : subs)
      loops.push_back(particle_loop(
          u.s,
          [=](auto ID, auto I, auto M, auto C) {
            M.fetch_add(ID.at(0), 1);
            C.fetch_add(0, 1);
            C.fetch_add(1, I.get_loop_linear_index());
          },
          Access::read(Sym<INT>("ID")), Access::read(ParticleLoopIndex{}),
          Access::add(mark), Access::add(cnt)));
    auto A = g->get_dat(Sym<INT>("A"));
    auto Vd = g->get_dat(Sym<REAL>("V"));
    INT ***kept = nullptr;
    for (int d = 0; d < (mc_tier ? 4 : 3); d++) {
      const int op = mc::choose(7, "op");
      switch (op) {
      case 0:
        for (auto &u : subs)
          u.s->get_npart_local();
        break;
      case 1:
        for (int c = 0; c < NC; c++) {
          auto x = A->cell_dat.get_cell(c);
          for (int k = 0; k < x->nrow; k++)
            x->at(k, 0) = (x->at(k, 0) + 1 + k) % 4;
          A->cell_dat.set_cell(c, x);
        }
        break;
      case 2: {
        EventStack es;
        std::vector<CellData<REAL>> keep;
        for (int c = 0; c < NC; c++) {
          keep.push_back(Vd->cell_dat.get_cell(c));
          auto x = keep.back();
          for (int k = 0; k < x->nrow; k++)
            x->at(k, 0) = 3.0 - x->at(k, 0);
          Vd->cell_dat.set_cell_async(c, *x, es);
        }
        es.wait();
        break;
      }
      case 3:
        A->cell_dat.set_value(0, 1, 0,
                              (A->cell_dat.get_value(0, 1, 0) + 1) % 4);
        break;
      case 4: {
        auto p = Access::direct_get(Access::write(A));
        w.target->queue
            .single_task<>([=]() {
              for (int k = 0; k < 4; k++)
                p[0][0][k] = (p[0][0][k] + 1 + k) % 4;
            })
            .wait_and_throw();
        Access::direct_restore(Access::write(A), p);
        break;
      }
      case 5: // a pointer which stays in use
        kept = A->cell_dat.device_ptr();
        break;
      case 6: {
        if (!kept)
          mc_discard();
        auto p = kept;
        w.target->queue
            .single_task<>([=]() {
              p[1][0][0] = (p[1][0][0] + 1) % 4;
              p[2][0][0] = (p[2][0][0] + 3) % 4;
            })
            .wait_and_throw();
        break;
      }
      }
      if (op)
        mc::nontrivial();
    }
    for (size_t k = 0; k < subs.size(); k++)
      check_sub(subs[k], *g, loops[k], mark, cnt, true);
    hash_state(snapshot(*g));
  });
}
static void seq_loaded() { seq(mc_tier ? 5 : 3, 1); }
static void seq_unselected() { seq(mc_tier ? 4 : 2, 2); }
static void seq_empty() { seq(mc_tier ? 4 : 2, 0); }

// Occupancies, truncation counts and loop sizes: every selector on every small
// occupancy, also under different work item orders.
static void shapes() {
  static const auto K = kinds();
  const int kind = mc::choose((int)K.size(), "kind");
  mc_note(K[kind].name);
  std::vector<int> occ;
  static const int os[4] = {0, 1, 3, 5};
  for (int c = 0; c < NC; c++)
    occ.push_back(os[mc::choose(4, "occ")]);
  const int local = 1 << (2 * mc::choose(2, "local"));
  mc_set_item_order(mc::choose(3, "order"));
  mc::ranks(1, [&](int) {
    World w({NC, 1});
    set_param(w, "LOOP_LOCAL_SIZE", local);
    auto spec = sub_spec();
    auto g = std::make_shared<TG>(w.domain, spec, w.target);
    std::vector<Part> v;
    for (int c = 0; c < NC; c++)
      for (int k = 0; k < occ[c]; k++)
        v.push_back(mkpart((int)v.size(), c));
    g->add_particles_local(to_set(v, spec));
    if (v.size())
      mc::nontrivial();
    auto subs = K[kind].make(pg(g));
    LocalArray<INT> mark(w.target, MAXID, 0), cnt(w.target, 2, 0);
    for (auto &u : subs) {
      auto L = particle_loop(
          u.s,
          [=](auto ID, auto I, auto M, auto C) {
            M.fetch_add(ID.at(0), 1);
            C.fetch_add(0, 1);
            C.fetch_add(1, I.get_loop_linear_index());
          },
          Access::read(Sym<INT>("ID")), Access::read(ParticleLoopIndex{}),
          Access::add(mark), Access::add(cnt));
      check_sub(u, *g, L, mark, cnt, true);
      mc::outcome(u.s->get_npart_local());
    }
  });
}

// Cell ranges, truncation and discarding with every argument; truncation and
// discarding of one parent with the same count split it.
static void arguments() {
  std::vector<int> occ;
  static const int os[3] = {0, 2, 5};
  for (int c = 0; c < NC; c++)
    occ.push_back(os[mc::choose(3, "occ")]);
  const int par = mc::choose(3, "parent");
  const int what = mc::choose(2, "what");
  const int a = mc::choose(what ? 7 : NC + 1, "a");
  const int b = what ? 0 : mc::choose(NC + 1, "b");
  if (!what && b < a)
    mc_discard();
  mc::ranks(1, [&](int) {
    World w({NC, 1});
    set_param(w, "LOOP_LOCAL_SIZE", 2);
    auto spec = sub_spec();
    auto g = std::make_shared<TG>(w.domain, spec, w.target);
    std::vector<Part> v;
    for (int c = 0; c < NC; c++)
      for (int k = 0; k < occ[c]; k++)
        v.push_back(mkpart((int)v.size(), c));
    g->add_particles_local(to_set(v, spec));
    if (v.size())
      mc::nontrivial();
    ParticleSubGroupSharedPtr p;
    if (par == 1)
      p = particle_sub_group(pg(g));
    if (par == 2)
      p = filtA(pg(g));
    std::function<bool(const View &, INT)> base = [](const View &, INT) {
      return true;
    };
    if (par == 2)
      base = inA;
    LocalArray<INT> mark(w.target, MAXID, 0), cnt(w.target, 2, 0);
    auto full = [&](Sub u) {
      auto L = particle_loop(
          u.s,
          [=](auto ID, auto I, auto M, auto C) {
            M.fetch_add(ID.at(0), 1);
            C.fetch_add(0, 1);
            C.fetch_add(1, I.get_loop_linear_index());
          },
          Access::read(Sym<INT>("ID")), Access::read(ParticleLoopIndex{}),
          Access::add(mark), Access::add(cnt));
      check_sub(u, *g, L, mark, cnt, true);
    };
    if (what == 0) {
      auto s = par == 0 ? particle_sub_group(pg(g), a, b)
                        : particle_sub_group(p, a, b);
      auto in = [=](const View &v, INT id) {
        return base(v, id) && v.by_id.at(id).cell >= a &&
               v.by_id.at(id).cell < b;
      };
      full({s, in});
      // and as a parent
      auto t = filtV(s);
      full({t, [=](const View &v, INT id) { return in(v, id) && inV(v, id); }});
    } else {
      auto t = par == 0 ? particle_sub_group_truncate(pg(g), a)
                        : particle_sub_group_truncate(p, a);
      auto d = par == 0 ? particle_sub_group_discard(pg(g), a)
                        : particle_sub_group_discard(p, a);
      if (par < 2) {
        full({t, [=](const View &v, INT id) { return v.layer.at(id) < a; }});
        full({d, [=](const View &v, INT id) { return v.layer.at(id) >= a; }});
      } else {
        full({t, inA, true, [=](INT n) { return std::min<INT>(n, a); }});
        full({d, inA, true, [=](INT n) { return std::max<INT>(n - a, 0); }});
      }
      std::vector<ParticleSubGroupSharedPtr> td{t, d};
      auto u = particle_sub_group_disjoint_union(td);
      full({u, base}); // together exactly the parent
      mc::outcome(t->get_npart_local() * 100 + d->get_npart_local());
    }
  });
}

// Static sub groups keep their particles while properties change, and are
// reported invalid once the group changes.
static void statics() {
  const int how = mc::choose(4, "how");
  const int mod = mc::choose(6, "mod");
  mc::ranks(1, [&](int) {
    World w({NC, 1});
    set_param(w, "LOOP_LOCAL_SIZE", 2);
    auto spec = sub_spec();
    auto g = std::make_shared<TG>(w.domain, spec, w.target);
    std::vector<Part> v;
    for (int k = 0; k < 7; k++)
      v.push_back(mkpart(k, k % 3));
    g->add_particles_local(to_set(v, spec));
    mc::nontrivial();
    ParticleSubGroupSharedPtr s;
    if (how == 0)
      s = static_particle_sub_group(
          pg(g), [=](auto A) { return A.at(0) % 2 == 0; },
          Access::read(Sym<INT>("A")));
    if (how == 1) {
      s = filtA(pg(g));
      s->static_status(true);
    }
    if (how == 2)
      s = particle_sub_group(filtA(pg(g)), 0, 2, true);
    if (how == 3)
      s = particle_sub_group_truncate(filtA(pg(g)), 1, true);
    MC_CHECK(s->static_status(), "not static");
    auto ids = [&]() {
      LocalArray<INT> m(w.target, MAXID, 0);
      particle_loop(
          s, [=](auto ID, auto M) { M.fetch_add(ID.at(0), 1); },
          Access::read(Sym<INT>("ID")), Access::add(m))
          ->execute();
      return m.get();
    };
    auto before = ids();
    MC_CHECK(s->is_valid(), "invalid at once");
    const int64_t ver = s->get_version();
    bool valid = true;
    if (mod == 0 || mod == 1)
      particle_loop(
          pg(g), [=](auto A) { A.at(0) += 1; }, Access::write(Sym<INT>("A")))
          ->execute();
    if (mod == 1)
      particle_loop(
          s, [=](auto A) { A.at(0) += 1; }, Access::write(Sym<INT>("A")))
          ->execute();
    if (mod == 2) {
      std::vector<Part> x{mkpart(20, 1)};
      g->add_particles_local(to_set(x, spec));
      valid = false;
    }
    if (mod == 3) {
      std::vector<INT> c{0}, l{0};
      g->remove_particles(1, c, l);
      valid = false;
    }
    if (mod == 4) {
      g->cell_move();
      valid = false;
    }
    if (mod == 5) {
      g->clear();
      valid = false;
    }
    if (valid) {
      MC_CHECK(s->is_valid(), "property write invalidates a static sub group");
      MC_CHECK(ids() == before, "static sub group changed");
      MC_CHECK(s->get_version() == ver, "rebuilt");
      s->static_status(false);
      auto now = ids();
      auto cur = view(*g);
      if (how < 2)
        for (auto &p : cur.parts)
          MC_CHECK((now[p.i["ID"][0]] == 1) == selA(p),
                   "not brought up to date when made dynamic");
    } else {
      MC_CHECK(!s->is_valid(), "static sub group still valid");
      mc_expect_abort(1);
      const int a0 = mc_abort_count();
      try {
        s->get_npart_local();
      } catch (...) {
      }
      MC_CHECK(mc_abort_count() > a0, "use of an invalid static sub group");
      mc_expect_abort(0);
    }
    mc::outcome(valid);
  });
}

const mc_scenario mc_scenarios[] = {{"direct_writes", direct_writes},
    
    {"sequences_loaded", seq_loaded}, {"sequences_empty", seq_empty},
    {"sequences_unselected", seq_unselected},
    {"shapes", shapes},               {"arguments", arguments},
    {"statics", statics},
};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) {
  return mc_main(c, v, mc_scenarios, mc_num_scenarios);
}

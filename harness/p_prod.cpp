// Product matrices, descendant products, device particle sets, host particle sets
// and temporary groups.
#include "model.hpp"
using namespace H;

static const std::vector<std::vector<int>> NR = {{2, 1, 3}, {1}, {}, {3, 2}};
static const std::vector<std::vector<int>> NI = {{1, 2}, {}, {3}, {2, 1, 1}};
static ParticleSpec make_spec(const std::vector<int> &r, const std::vector<int> &i) {
  ParticleSpec s;
  for (size_t k = 0; k < r.size(); k++)
    s.push(ParticleProp(Sym<REAL>("R" + std::to_string(9 - k)), r[k]));
  for (size_t k = 0; k < i.size(); k++)
    s.push(ParticleProp(Sym<INT>("I" + std::to_string(k)), i[k]));
  return s;
}
struct Vals { // [property][component][row]
  std::vector<std::vector<std::vector<REAL>>> r;
  std::vector<std::vector<std::vector<INT>>> i;
};
static REAL rv(int a, int b, int c, int d) {
  return a * 1000 + b * 100 + c * 10 + d + 0.5;
}

// Every sequence of reset, set, and loops of the given depth.
template <typename T> static void matrix_case(int depth) {
  const int kr = mc::choose((int)NR.size(), "real"),
            ki = mc::choose((int)NI.size(), "int");
  const auto &nr = NR[kr];
  const auto &ni = NI[ki];
  if (nr.empty() && ni.empty())
    mc_discard();
  const bool defaults = mc::choose(2, "defaults");
  World w({2, 1});
  auto spec = make_spec(nr, ni);
  auto ms = product_matrix_spec(spec);
  auto R = [&](int p) { return Sym<REAL>("R" + std::to_string(9 - p)); };
  auto I = [&](int p) { return Sym<INT>("I" + std::to_string(p)); };
  for (size_t p = 0; p < nr.size(); p++) {
    MC_CHECK(ms->get_sym_index(R(p)) == (int)p, "index of a property");
    MC_CHECK(ms->get_num_components(R(p)) == nr[p], "components");
  }
  for (size_t p = 0; p < ni.size(); p++) {
    MC_CHECK(ms->get_sym_index(I(p)) == (int)p, "index of a property");
    MC_CHECK(ms->get_num_components(I(p)) == ni[p], "components");
  }
  MC_CHECK(ms->get_sym_index(Sym<REAL>("I0")) == -1 &&
               ms->get_sym_index(Sym<INT>("R9")) == -1 &&
               ms->get_num_components(Sym<INT>("X")) == 0,
           "unknown property");
  auto dr = [&](int p, int c) { return defaults && (p + c) % 2 ? 4.25 + p - c : 0.0; };
  auto di = [&](int p, int c) { return defaults && (p + c) % 2 == 0 ? (INT)(7 + p - c) : 0; };
  if (defaults) {
    for (int p = 0; p < (int)nr.size(); p++)
      for (int c = 0; c < nr[p]; c++)
        if ((p + c) % 2)
          ms->set_default_value(R(p), c, dr(p, c));
    for (int p = 0; p < (int)ni.size(); p++)
      for (int c = 0; c < ni[p]; c++)
        if ((p + c) % 2 == 0)
          ms->set_default_value(I(p), c, di(p, c));
  }
  auto m = std::make_shared<T>(w.target, ms);
  int n = 0;
  Vals v;
  auto reset = [&](int k) {
    n = k;
    m->reset(k);
    v.r.clear();
    v.i.clear();
    for (int p = 0; p < (int)nr.size(); p++) {
      v.r.emplace_back();
      for (int c = 0; c < nr[p]; c++)
        v.r.back().emplace_back(n, dr(p, c));
    }
    for (int p = 0; p < (int)ni.size(); p++) {
      v.i.emplace_back();
      for (int c = 0; c < ni[p]; c++)
        v.i.back().emplace_back(n, di(p, c));
    }
  };
  // a group whose particles address the rows
  ParticleSpec gs{ParticleProp(Sym<REAL>("P"), 2, true),
                  ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                  ParticleProp(Sym<INT>("ID"), 1)};
  auto g = std::make_shared<TG>(w.domain, gs, w.target);
  {
    auto ps = std::make_shared<ParticleSet>(3, gs);
    for (int k = 0; k < 3; k++) {
      ps->at(Sym<INT>("ID"), k, 0) = k;
      ps->at(Sym<INT>("CELL_ID"), k, 0) = k == 1;
    }
    g->add_particles_local(ps);
  }
  auto G = pg(g);
  const int np_r = nr.size(), np_i = ni.size();
  std::vector<int> comps(8, 0);
  std::copy(nr.begin(), nr.end(), comps.begin());
  std::copy(ni.begin(), ni.end(), comps.begin() + 4);
  LocalArray<int> lc(w.target, comps);
  auto verify = [&](const char *when) {
    auto ps = m->get();
    MC_CHECK(ps->npart == n, when, ": number of rows");
    for (int p = 0; p < np_r; p++)
      for (int c = 0; c < nr[p]; c++)
        for (int k = 0; k < n; k++)
          MC_CHECK(ps->at(R(p), k, c) == v.r[p][c][k], when, ": real ", p, " ",
                   c, " row ", k, " is ", ps->at(R(p), k, c), " not ",
                   v.r[p][c][k]);
    for (int p = 0; p < np_i; p++)
      for (int c = 0; c < ni[p]; c++)
        for (int k = 0; k < n; k++)
          MC_CHECK(ps->at(I(p), k, c) == v.i[p][c][k], when, ": int ", p, " ", c,
                   " row ", k, " is ", ps->at(I(p), k, c));
  };
  verify("initially");
  static const int SZ[4] = {2, 0, 3, 1};
  reset(SZ[mc::choose(3, "rows")]);
  verify("reset");
  for (int d = 0; d < depth; d++) {
    const int op = mc::choose(7, "op");
    switch (op) {
    case 0:
      reset(SZ[mc::choose(4, "rows")]);
      break;
    case 1:
    case 2:
    case 6: { // a set of all or of some properties (and of others)
      auto sub = make_spec(op == 2 ? std::vector<int>{nr.empty() ? 1 : nr[0]} : nr,
                           op == 2 ? std::vector<int>{} : ni);
      if (op == 6)
        sub = make_spec({}, ni);
      auto ps = std::make_shared<ParticleSet>(n, sub);
      for (int k = 0; k < n; k++) {
        for (auto &pr : sub.properties_real)
          for (int c = 0; c < pr.ncomp; c++)
            ps->at(pr.sym, k, c) = rv(d + 1, pr.name[1] - '0', c, k);
        for (auto &pr : sub.properties_int)
          for (int c = 0; c < pr.ncomp; c++)
            ps->at(pr.sym, k, c) = d * 1000 + pr.name[1] * 50 + c * 10 + k;
      }
      for (int k = 0; k < n; k++) {
        for (int p = 0; p < np_r; p++)
          if (ps->contains(R(p)))
            for (int c = 0; c < nr[p]; c++)
              v.r[p][c][k] = ps->at(R(p), k, c);
        for (int p = 0; p < np_i; p++)
          if (ps->contains(I(p)))
            for (int c = 0; c < ni[p]; c++)
              v.i[p][c][k] = ps->at(I(p), k, c);
      }
      // in between, through another host set
      if (op == 6) {
        auto all = m->get();
        if (d % 2)
          all->set(ps);
        else
          all->set(*ps);
        ps = all;
      }
      m->set(ps);
      break;
    }
    case 3: // every particle writes its row
      particle_loop(
          G,
          [=](auto M, auto ID, auto C) {
            const int k = ID.at(0);
            if (k < n) {
              for (int p = 0; p < np_r; p++)
                for (int c = 0; c < C.at(p); c++)
                  M.at_real(k, p, c) = 3.0 * d + k + 10 * c + 100 * p;
              for (int p = 0; p < np_i; p++)
                for (int c = 0; c < C.at(4 + p); c++)
                  M.at_int(k, p, c) = 5 * d + k + 10 * c + 100 * p;
            }
          },
          Access::write(m), Access::read(Sym<INT>("ID")), Access::read(lc))
          ->execute();
      for (int k = 0; k < n; k++) {
        for (int p = 0; p < np_r; p++)
          for (int c = 0; c < nr[p]; c++)
            v.r[p][c][k] = 3.0 * d + k + 10 * c + 100 * p;
        for (int p = 0; p < np_i; p++)
          for (int c = 0; c < ni[p]; c++)
            v.i[p][c][k] = 5 * d + k + 10 * c + 100 * p;
      }
      break;
    case 4: { // every particle adds to every row
      auto old_r = std::make_shared<LocalArray<REAL>>(w.target, 3, 0.0);
      particle_loop(
          G,
          [=](auto M, auto ID, auto C) {
            for (int k = 0; k < n; k++) {
              for (int p = 0; p < np_r; p++)
                for (int c = 0; c < C.at(p); c++)
                  M.fetch_add_real(k, p, c, (REAL)(ID.at(0) + 1 + c));
              for (int p = 0; p < np_i; p++)
                for (int c = 0; c < C.at(4 + p); c++)
                  M.fetch_add_int(k, p, c, ID.at(0) + 1 + k);
            }
          },
          Access::add(m), Access::read(Sym<INT>("ID")), Access::read(lc))
          ->execute();
      for (int k = 0; k < n; k++) {
        for (int p = 0; p < np_r; p++)
          for (int c = 0; c < nr[p]; c++)
            v.r[p][c][k] += 6 + 3 * c;
        for (int p = 0; p < np_i; p++)
          for (int c = 0; c < ni[p]; c++)
            v.i[p][c][k] += 6 + 3 * k;
      }
      break;
    }
    case 5: { // every particle reads its row
      LocalArray<REAL> outr(w.target, 3 * 12, 0.0);
      LocalArray<INT> outi(w.target, 3 * 12, 0);
      particle_loop(
          G,
          [=](auto M, auto ID, auto C, auto OR, auto OI) {
            const int k = ID.at(0);
            if (k < n) {
              for (int p = 0; p < np_r; p++)
                for (int c = 0; c < C.at(p); c++)
                  OR.fetch_add(k * 12 + p * 3 + c, M.at_real(k, p, c));
              for (int p = 0; p < np_i; p++)
                for (int c = 0; c < C.at(4 + p); c++)
                  OI.fetch_add(k * 12 + p * 3 + c, M.at_int(k, p, c));
            }
          },
          Access::read(m), Access::read(Sym<INT>("ID")), Access::read(lc),
          Access::add(outr), Access::add(outi))
          ->execute();
      auto a = outr.get();
      auto b = outi.get();
      for (int k = 0; k < n; k++) {
        for (int p = 0; p < np_r; p++)
          for (int c = 0; c < nr[p]; c++)
            MC_CHECK(a[k * 12 + p * 3 + c] == v.r[p][c][k], "real read by a loop");
        for (int p = 0; p < np_i; p++)
          for (int c = 0; c < ni[p]; c++)
            MC_CHECK(b[k * 12 + p * 3 + c] == v.i[p][c][k], "int read by a loop");
      }
      break;
    }
    }
    verify("after an operation");
    if (n > 0)
      mc::nontrivial();
  }
  mc::outcome(n);
  g.reset();
}
static void matrices() { matrix_case<ProductMatrix>(mc_tier ? 3 : 2); }

// Which children exist and where, for every combination.
static void descendants() {
  World w({2, 1});
  auto s = base_spec(2);
  std::vector<Part> ref, sref;
  const int occ = mc::choose(4, "parents");
  static const std::vector<int> OCC[4] = {{2, 1}, {0, 2}, {1, 0}, {0, 0}};
  const bool separate = mc::choose(2, "other source");
  TGP g, src;
  if (separate) { // the parents are in a group with other properties
    ParticleSpec ss{ParticleProp(Sym<REAL>("B"), 2),
                    ParticleProp(Sym<REAL>("P"), 2, true),
                    ParticleProp(Sym<INT>("A"), 2),
                    ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                    ParticleProp(Sym<INT>("ID"), 1)};
    src = make_group(w, OCC[occ], sref, ss, 2, 50);
    for (auto &p : sref)
      p.r.erase("V");
    g = make_group(w, {1, 0}, ref, s, 2, 10);
  } else {
    g = make_group(w, OCC[occ], ref, s, 2, 10);
    src = g;
    sref = ref;
  }
  const int kind = mc::choose(4, "properties");
  // in the matrix: 0: V, ID; 1: ID only; 2: A, CELL_ID, ID; 3: nothing but P
  ParticleSpec ds;
  if (kind == 0) {
    ds.push(ParticleProp(Sym<REAL>("V"), 3));
    ds.push(ParticleProp(Sym<INT>("ID"), 1));
  } else if (kind == 1)
    ds.push(ParticleProp(Sym<INT>("ID"), 1));
  else if (kind == 2) {
    ds.push(ParticleProp(Sym<INT>("A"), 2));
    ds.push(ParticleProp(Sym<INT>("CELL_ID"), 1));
    ds.push(ParticleProp(Sym<INT>("ID"), 1));
  } else
    ds.push(ParticleProp(Sym<REAL>("P"), 2));
  auto spec = product_matrix_spec(ds);
  if (kind == 2)
    spec->set_default_value(Sym<INT>("CELL_ID"), 0, -1);
  spec->set_default_value(Sym<INT>("ID"), 0, 5);
  const int nper = 1 + mc::choose(2, "children per parent");
  const bool sub = mc::choose(2, "sub group");
  auto dp = std::make_shared<DescendantProducts>(w.target, spec, nper);
  for (int round = 0; round < 2; round++) {
    // parents in the order of IDs
    std::vector<Part> par;
    for (auto &p : sref)
      if (p.i["ID"][0] < 100 && (!sub || p.i["ID"][0] % 2))
        par.push_back(p);
    const int np = par.size();
    const int combos = 1 << (np * nper);
    int mask = round == 0 ? mc::choose(combos, "children") : combos - 1 - (combos > 2);
    const int sameprops = mc::choose(2, "values");
    std::vector<INT> slot(100, -1);
    for (int k = 0; k < np; k++)
      slot[par[k].i["ID"][0]] = k;
    LocalArray<INT> ls(w.target, slot);
    auto kernel = [=](auto DP, auto IX, auto ID, auto S) {
      const int k = S.at(ID.at(0));
      for (int c = 0; c < nper; c++)
        if (mask & (1 << (k * nper + c))) {
          DP.set_parent(IX, c);
          if (!sameprops)
            continue; // default values
          const int base = round * 1000 + 100 * (k + 1) + c;
          if (kind == 0)
            for (int d = 0; d < 3; d++)
              DP.at_real(IX, c, 0, d) = base * 10 + d;
          if (kind <= 1)
            DP.at_int(IX, c, 0, 0) = base;
          if (kind == 2) {
            DP.at_int(IX, c, 0, 0) = base + 1;
            DP.at_int(IX, c, 0, 1) = base + 2;
            DP.at_int(IX, c, 1, 0) = (k + c) % 2;
            DP.at_int(IX, c, 2, 0) = base;
          }
          if (kind == 3)
            for (int d = 0; d < 2; d++)
              DP.at_real(IX, c, 0, d) = base + d;
        }
    };
    dp->reset(np);
    MC_CHECK(dp->num_products == np * nper && dp->num_parent_particles == np,
             "number of products");
    if (sub) {
      auto sg = particle_sub_group(
          pg(src), [=](auto ID) { return ID.at(0) < 100 && ID.at(0) % 2 == 1; },
          Access::read(Sym<INT>("ID")));
      particle_loop(sg, kernel, Access::write(dp),
                    Access::read(ParticleLoopIndex{}),
                    Access::read(Sym<INT>("ID")), Access::read(ls))
          ->execute();
    } else {
      if (round && !separate)
        break; // the children are parents now: not addressable in this test
      particle_loop(pg(src), kernel, Access::write(dp),
                    Access::read(ParticleLoopIndex{}),
                    Access::read(Sym<INT>("ID")), Access::read(ls))
          ->execute();
    }
    if (separate)
      g->add_particles_local(dp, pg(src));
    else
      g->add_particles_local(dp);
    std::vector<Part> add;
    for (int k = 0; k < np; k++)
      for (int c = 0; c < nper; c++)
        if (mask & (1 << (k * nper + c))) {
          Part q = par[k];
          q.r.erase("B");
          if (separate)
            q.r["V"] = {0, 0, 0};
          const int base = round * 1000 + 100 * (k + 1) + c;
          auto I = [&](INT v, INT def) { return sameprops ? v : def; };
          if (kind == 0)
            for (int d = 0; d < 3; d++)
              q.r["V"][d] = sameprops ? base * 10 + d : 0;
          if (kind <= 2)
            q.i["ID"][0] = I(base, 5);
          if (kind == 2) {
            q.i["A"][0] = I(base + 1, 0);
            q.i["A"][1] = I(base + 2, 0);
            q.cell = I((k + c) % 2, -1);
            if (q.cell < 0)
              continue; // no cell: not created
            q.i["CELL_ID"][0] = q.cell;
          }
          if (kind == 3)
            for (int d = 0; d < 2; d++)
              q.r["P"][d] = sameprops ? base + d : 0;
          add.push_back(q);
        }
    complete(*g, add);
    ref.insert(ref.end(), add.begin(), add.end());
    g->check_internal();
    compare(snapshot(*g), ref, {"NESO_MPI_RANK"}, "after adding descendants");
    if (separate)
      compare(snapshot(*src),
              [&] {
                auto x = sref;
                return x;
              }(),
              {"NESO_MPI_RANK"}, "parents");
    if (!separate)
      sref = ref;
    if (add.size())
      mc::nontrivial();
    mc::outcome(add.size());
    if (kind == 3 && !separate)
      break; // IDs are not unique any more
    if (!sameprops && !separate)
      break;
  }
  src.reset();
  g.reset();
}

// Temporary groups have the properties of the group now and are empty.
static void temporary() {
  World w({2, 1});
  std::vector<Part> ref;
  auto g = make_group(w, {2, 1}, ref, base_spec(2), 2, 1);
  ParticleGroupTemporary tmp;
  std::vector<ParticleGroupSharedPtr> held;
  std::map<std::string, int> extra;
  auto give_back = [&]() {
    while (!held.empty()) {
      auto t = held.front();
      held.erase(held.begin());
      tmp.restore(pg(g), t);
    }
  };
  const int depth = mc_tier ? 6 : 5;
  for (int d = 0; d < depth; d++) {
    switch (mc::choose(6, "op")) {
    case 0:
    case 1: { // get, and put particles in
      if (held.size() == 2) {
        give_back();
        mc_discard();
      }
      auto t = tmp.get(pg(g));
      MC_CHECK(t != pg(g), "the group itself");
      for (auto &h : held)
        MC_CHECK(h != t, "a temporary group given out twice");
      held.push_back(t);
      MC_CHECK(t->get_npart_local() == 0, "temporary group is not empty");
      for (int c = 0; c < 2; c++)
        MC_CHECK(t->get_npart_cell(c) == 0, "temporary group is not empty");
      MC_CHECK(t->domain == g->domain, "domain");
      auto &gr = g->reals();
      auto &gi = g->ints();
      int nr = 0, ni = 0;
      for (auto &x : t->particle_dats_real) {
        nr++;
        MC_CHECK(gr.count(x.first) && gr.at(x.first)->ncomp == x.second->ncomp,
                 "property ", x.first.name, " of a temporary group");
      }
      for (auto &x : t->particle_dats_int) {
        ni++;
        MC_CHECK(gi.count(x.first) && gi.at(x.first)->ncomp == x.second->ncomp,
                 "property ", x.first.name, " of a temporary group");
      }
      MC_CHECK(nr == (int)gr.size() && ni == (int)gi.size(),
               "missing property in a temporary group");
      t->add_particles_local(pg(g));
      MC_CHECK(t->get_npart_local() == (int)ref.size(), "particles added");
      mc::nontrivial();
      break;
    }
    case 2: // give one back
    case 3:
      if (held.empty())
        mc_discard();
      {
        auto t = held.front();
        held.erase(held.begin());
        tmp.restore(pg(g), t);
        MC_CHECK(t == nullptr, "the temporary group can still be used");
      }
      break;
    case 4: { // add or change a property
      const int n = 1 + d % 3;
      if (extra.count("X"))
        g->remove_particle_dat(Sym<REAL>("X"));
      g->add_particle_dat(Sym<REAL>("X"), n);
      extra["X"] = n;
      for (auto &p : ref)
        p.r["X"] = std::vector<REAL>(n, 0.0);
      break;
    }
    case 5:
      if (extra.count("X")) {
        g->remove_particle_dat(Sym<REAL>("X"));
        extra.erase("X");
        for (auto &p : ref)
          p.r.erase("X");
      } else {
        g->add_particle_dat(Sym<INT>("Y" + std::to_string(d)), 2);
        for (auto &p : ref)
          p.i["Y" + std::to_string(d)] = {0, 0};
      }
      break;
    }
    g->check_internal();
    compare(snapshot(*g), ref,
            {"NESO_MPI_RANK", "X", "Y0", "Y1", "Y2", "Y3", "Y4", "Y5"},
            "the group");
  }
  mc::outcome(held.size());
  give_back();
  g.reset();
}

// Host particle sets.
static void host_sets() {
  const int kr = mc::choose((int)NR.size(), "real"),
            ki = mc::choose((int)NI.size(), "int");
  const int n = mc::choose(4, "particles");
  auto spec = make_spec(NR[kr], NI[ki]);
  ParticleSet a(n, spec);
  std::map<std::string, std::vector<std::vector<REAL>>> m;
  for (auto &pr : spec.properties_real)
    m[pr.name].assign(pr.ncomp, std::vector<REAL>(n, 0.0));
  for (auto &pr : spec.properties_int)
    m[pr.name].assign(pr.ncomp, std::vector<REAL>(n, 0.0));
  auto verify = [&](const char *when) {
    for (auto &pr : spec.properties_real) {
      MC_CHECK(a.contains(pr.sym), "property missing");
      auto &v = a.get(pr.sym);
      MC_CHECK((int)v.size() == n * pr.ncomp, "size of values");
      for (int c = 0; c < pr.ncomp; c++)
        for (int k = 0; k < n; k++)
          MC_CHECK(a[pr.sym][k][c] == m[pr.name][c][k] &&
                       a.at(pr.sym, k, c) == m[pr.name][c][k] &&
                       v[c * n + k] == m[pr.name][c][k],
                   when, ": value of ", pr.name, " row ", k, " component ", c);
    }
    for (auto &pr : spec.properties_int) {
      MC_CHECK(a.contains(pr.sym), "property missing");
      auto &v = a.get(pr.sym);
      MC_CHECK((int)v.size() == n * pr.ncomp, "size of values");
      for (int c = 0; c < pr.ncomp; c++)
        for (int k = 0; k < n; k++)
          MC_CHECK(a[pr.sym][k][c] == m[pr.name][c][k] &&
                       a.at(pr.sym, k, c) == m[pr.name][c][k] &&
                       v[c * n + k] == m[pr.name][c][k],
                   when, ": value of ", pr.name, " row ", k, " component ", c);
    }
    MC_CHECK(!a.contains(Sym<REAL>("NONE")) && !a.contains(Sym<INT>("NONE")),
             "unknown property");
  };
  verify("new");
  for (int d = 0; d < 3; d++) {
    switch (mc::choose(3, "op")) {
    case 0:
      for (auto &pr : spec.properties_real)
        for (int c = 0; c < pr.ncomp; c++)
          for (int k = 0; k < n; k++)
            m[pr.name][c][k] = a[pr.sym][k][c] = rv(d, c, k, pr.name[1]);
      for (auto &pr : spec.properties_int)
        for (int c = 0; c < pr.ncomp; c++)
          for (int k = 0; k < n; k++)
            m[pr.name][c][k] = a.at(pr.sym, k, c) = d * 100 + c * 10 + k + pr.name[1];
      break;
    case 1: // one component
      for (auto &pr : spec.properties_real) {
        const int c = d % pr.ncomp;
        std::vector<REAL> v;
        for (int k = 0; k < n; k++)
          v.push_back(m[pr.name][c][k] = rv(d + 5, c, k, pr.name[1]));
        a.set(pr.sym, c, v);
      }
      for (auto &pr : spec.properties_int) {
        const int c = (d + 1) % pr.ncomp;
        std::vector<INT> v;
        for (int k = 0; k < n; k++) {
          v.push_back(d * 100 + 50 + c * 10 + k + pr.name[1]);
          m[pr.name][c][k] = v.back();
        }
        a.set(pr.sym, c, v);
      }
      break;
    case 2: { // from another set with some of the properties and others
      auto sub = make_spec(d % 2 ? NR[kr] : std::vector<int>{},
                           d % 2 ? std::vector<int>{} : NI[ki]);
      sub.push(ParticleProp(Sym<REAL>("OTHER"), 2));
      auto b = std::make_shared<ParticleSet>(n, sub);
      for (auto &pr : sub.properties_real)
        if (pr.name != "OTHER")
          for (int c = 0; c < pr.ncomp; c++)
            for (int k = 0; k < n; k++)
              m[pr.name][c][k] = b->at(pr.sym, k, c) = rv(d + 7, c, k, pr.name[1]);
      for (auto &pr : sub.properties_int)
        for (int c = 0; c < pr.ncomp; c++)
          for (int k = 0; k < n; k++)
            m[pr.name][c][k] = b->at(pr.sym, k, c) = d * 1000 + 7 + c * 10 + k;
      if (d == 1)
        a.set(b);
      else
        a.set(*b);
      break;
    }
    }
    verify("after an operation");
  }
  mc::outcome(n);
  if (n)
    mc::nontrivial();
}

const mc_scenario mc_scenarios[] = {{"matrices", matrices},
                                    {"descendants", descendants},
                                    {"temporary", temporary},
                                    {"host_sets", host_sets}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) { return mc_main(c, v, mc_scenarios, mc_num_scenarios); }

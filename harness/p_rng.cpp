// Random numbers in kernels: every sample handed to a kernel comes from the
// generator and is handed out once; shortage is reported, never silent.
#include "model.hpp"
using namespace H;

static const int NC = 3, MAXID = 24, SL = 4;
static ParticleSpec rng_spec() {
  return ParticleSpec{ParticleProp(Sym<REAL>("P"), 2, true),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("ID"), 1)};
}
static Part mkpart(int id, int cell) {
  Part p;
  p.cell = cell;
  p.r["P"] = {cell + 0.5, 0.5};
  p.i["ID"] = {id};
  p.i["CELL_ID"] = {cell};
  return p;
}
// The sequence 1, 2, 3, ... in three guises.
template <typename T> struct Source {
  INT next = 1;
  std::vector<size_t> sizes;
  std::shared_ptr<RNGGenerationFunction<T>> host() {
    return make_rng_generation_function<HostRNGGenerationFunction, T>(
        std::function<T()>([this]() { return (T)this->next++; }));
  }
  std::shared_ptr<RNGGenerationFunction<T>> device(SYCLTargetSharedPtr t) {
    return make_rng_generation_function<GenericDeviceRNGGenerationFunction, T>(
        std::function<int(T *, const std::size_t)>(
            [this, t](T *d, const std::size_t n) {
              std::vector<T> v;
              for (size_t k = 0; k < n; k++)
                v.push_back((T)this->next++);
              if (n)
                t->queue.memcpy(d, v.data(), n * sizeof(T)).wait_and_throw();
              return 0;
            }));
  }
  std::shared_ptr<RNGGenerationFunction<T>> make(int how,
                                                 SYCLTargetSharedPtr t) {
    return how == 2 ? device(t) : host();
  }
};
struct Rec { // what the kernels saw, by slot
  LocalArray<INT> val, ok, runs;
  int n;
  Rec(World &w, int n)
      : val(w.target, n * SL, 0), ok(w.target, n * SL, 0), runs(w.target, n, 0),
        n(n) {}
  std::vector<INT> V, O, R;
  void get() {
    V = val.get();
    O = ok.get();
    R = runs.get();
    val.fill(0);
    ok.fill(0);
    runs.fill(0);
  }
};

static int reads_of(int pattern, INT id, int comps) {
  switch (pattern) {
  case 0:
    return comps;
  case 1:
    return (int)(id % (comps + 1));
  case 2:
    return id % 3 == 0 ? 0 : comps;
  case 3:
    return comps + (id % 2 ? 1 : 0);
  default:
    return comps + 1;
  }
}

// The particles a loop over [s, e) of the group or its sub group visits.
static std::vector<INT> visited(TG &g, int sub, int s, int e) {
  std::vector<INT> r;
  for (auto &p : snapshot(g))
    if (p.cell >= s && p.cell < e && !(sub && p.i.at("ID")[0] % 2))
      r.push_back(p.i.at("ID")[0]);
  return r;
}

// One block of samples per particle; a sample is never handed out twice.
struct PerParticle {
  template <typename T>
  static void check(Source<T> &src, INT g0, Rec &r, const std::vector<INT> &ids,
                    int comps, std::set<INT> &seen) {
    std::set<INT> who(ids.begin(), ids.end());
    for (int k = 0; k < r.n; k++) {
      MC_CHECK(r.R[k] == (INT)who.count(k), "iteration ", k, " ran ", r.R[k],
               " times");
      for (int c = 0; c < SL; c++) {
        const INT v = r.V[k * SL + c];
        if (!who.count(k) || c >= comps) {
          MC_CHECK(v == 0, "stray sample");
          continue;
        }
        MC_CHECK(r.O[k * SL + c] == 1, "sample of ", k, " marked invalid");
        MC_CHECK(v >= g0 && v < src.next, "sample ", v, " of iteration ", k,
                 " component ", c, " was not drawn for this loop: [", g0, ",",
                 src.next, ")");
        MC_CHECK(seen.insert(v).second, "sample ", v, " handed out twice");
      }
    }
    MC_CHECK(src.next - g0 == (INT)ids.size() * comps, "drew ", src.next - g0,
             " samples for ", ids.size(), " iterations of ", comps);
  }
};
// Samples in order of arrival.
struct Atomic {
  template <typename T, typename G>
  static void check(Source<T> &src, INT g0, Rec &r, const std::vector<INT> &ids,
                    int comps, int pattern, INT room, std::set<INT> &seen,
                    bool &valid, G &rng) {
    std::set<INT> who(ids.begin(), ids.end());
    INT reads = 0, bad = 0;
    for (int k = 0; k < r.n; k++) {
      MC_CHECK(r.R[k] == (INT)who.count(k), "iteration ", k, " ran ", r.R[k],
               " times");
      const int n = who.count(k) ? reads_of(pattern, k, comps) : 0;
      reads += n;
      for (int c = 0; c < SL; c++) {
        const INT v = r.V[k * SL + c], o = r.O[k * SL + c];
        if (c >= n) {
          MC_CHECK(v == 0 && o == 0, "stray sample");
          continue;
        }
        if (!o) {
          bad++;
          MC_CHECK(v == 0, "invalid sample has value ", v);
          continue;
        }
        MC_CHECK(v >= 1 && v < src.next, "sample ", v, " was never drawn");
        MC_CHECK(seen.insert(v).second, "sample ", v, " handed out twice");
      }
    }
    if (reads <= room)
      MC_CHECK(!bad, bad, " invalid samples although ", reads, " reads fit ",
               room);
    if (bad)
      valid = false;
    MC_CHECK(rng->valid_internal_state() == valid, "reported state ",
             rng->valid_internal_state(), " after ", bad, " invalid samples");
    if (valid)
      MC_CHECK(src.next - g0 <= room, "drew ", src.next - g0,
             " samples, needed at most ", room);
  }
};

enum { ALL, ONE, RANGE, SUB, SUBONE, ASYNC, ADD, REMOVE, OVERRIDE, NOPS };

// Sequences of loops of different extent over a changing group.
template <typename T> static void seq_impl(int atomic, int depth) {
  static const int CS[3] = {1, 3, 0};
  const int comps = CS[mc::choose(3, "components")];
  static const int BS[3] = {2, 1, 8192};
  const int src_kind = mc::choose(3, "source");
  const int block = src_kind < 2 ? BS[src_kind] : 8192;
  const int pattern = atomic ? mc::choose(5, "reads") : 0;
  const int start = mc::choose(2, "start");
  mc_set_poison(mc::choose(2, "poison"));
  mc::ranks(1, [&](int) {
    World w({NC, 1});
    set_param(w, "LOOP_LOCAL_SIZE", 2);
    auto spec = rng_spec();
    auto g = std::make_shared<TG>(w.domain, spec, w.target);
    int next = 0;
    auto add = [&](std::vector<int> cells) {
      std::vector<Part> v;
      for (int c : cells)
        v.push_back(mkpart(next++, c));
      g->add_particles_local(to_set(v, spec));
    };
    if (start)
      add({0, 0, 0, 1, 2, 2});
    auto sub = particle_sub_group(
        pg(g), [=](auto ID) { return ID.at(0) % 2 == 0; },
        Access::read(Sym<INT>("ID")));
    Source<T> src;
    auto per = std::make_shared<HostPerParticleBlockRNG<T>>(
        src.make(src_kind, w.target), comps, block);
    auto ato = std::make_shared<HostAtomicBlockKernelRNG<T>>(
        src.make(src_kind, w.target), comps, block);
    ato->suppress_warnings = true;
    Rec rec(w, MAXID);
    auto body = [=](auto ID, auto I, auto R, auto V, auto O, auto N) {
      const INT id = ID.at(0);
      N.fetch_add(id, 1);
      const int n = reads_of(pattern, id, comps);
      for (int c = 0; c < n; c++) {
        bool ok = false;
        const T x = R.at(I, c, &ok);
        V.fetch_add(id * SL + c, (INT)x);
        O.fetch_add(id * SL + c, ok ? 1 : 0);
      }
    };
    auto mk = [&](auto target) -> ParticleLoopSharedPtr {
      if (atomic)
        return particle_loop(
            target, body, Access::read(Sym<INT>("ID")),
            Access::read(ParticleLoopIndex{}), Access::read(ato),
            Access::add(rec.val), Access::add(rec.ok), Access::add(rec.runs));
      return particle_loop(
          target, body, Access::read(Sym<INT>("ID")),
          Access::read(ParticleLoopIndex{}), Access::read(per),
          Access::add(rec.val), Access::add(rec.ok), Access::add(rec.runs));
    };
    auto lg = mk(pg(g));
    auto ls = mk(sub);
    std::set<INT> seen;
    bool valid = true;
    int over = -1;
    for (int d = 0; d < depth; d++) {
      const int op = mc::choose(atomic ? NOPS : OVERRIDE, "op");
      int s = 0, e = NC, isub = 0;
      const INT g0 = src.next;
      switch (op) {
      case ALL:
        lg->execute();
        break;
      case ONE:
        s = 2;
        lg->execute(2);
        e = 3;
        break;
      case RANGE:
        lg->execute(0, 2);
        e = 2;
        break;
      case SUB:
        isub = 1;
        ls->execute();
        break;
      case SUBONE:
        isub = 1;
        ls->execute(0);
        e = 1;
        break;
      case ASYNC:
        s = 1;
        lg->submit(1, 3);
        lg->wait();
        break;
      case ADD:
        if (next + 4 > MAXID)
          mc_discard();
        add({1, 2, 0, 0});
        continue;
      case REMOVE: {
        std::vector<INT> cs, ls;
        for (int c = 0; c < NC; c++)
          if (g->get_npart_cell(c) > 0) {
            cs.push_back(c);
            ls.push_back(0);
          }
        g->remove_particles((int)cs.size(), cs, ls);
        continue;
      }
      case OVERRIDE:
        over = over < 0 ? 2 : -1;
        ato->set_num_random_numbers(over);
        continue;
      }
      rec.get();
      auto ids = visited(*g, isub, s, e);
      if (ids.size() && comps)
        mc::nontrivial();
      if (atomic)
        Atomic::check(src, g0, rec, ids, comps, pattern,
                      comps == 0 ? 0
                      : over < 0 ? (INT)ids.size() * comps
                                 : over,
                      seen, valid, ato);
      else {
        PerParticle::check(src, g0, rec, ids, comps, seen);
        MC_CHECK(per->valid_internal_state(), "state");
      }
      mc::outcome(src.next * 16 + (INT)seen.size());
    }
  });
}
static void per_particle() {
  if (mc::choose(2, "type"))
    seq_impl<INT>(0, mc_tier ? 4 : 3);
  else
    seq_impl<REAL>(0, mc_tier ? 4 : 3);
}
static void atomic_block() { seq_impl<REAL>(1, mc_tier ? 4 : 3); }

// Interleavings of the reads within one loop.
static void atomic_schedules() {
  const int pattern = mc::choose(5, "reads");
  const int comps = 1 + mc::choose(2, "components");
  mc_set_sched_bound(mc_tier ? 3 : 2);
  mc::ranks(1, [&](int) {
    World w({NC, 1});
    set_param(w, "LOOP_LOCAL_SIZE", 4);
    auto spec = rng_spec();
    auto g = std::make_shared<TG>(w.domain, spec, w.target);
    std::vector<Part> v;
    for (int k = 0; k < 3; k++)
      v.push_back(mkpart(k, k / 2));
    g->add_particles_local(to_set(v, spec));
    Source<INT> src;
    auto rng = host_atomic_block_kernel_rng<INT>(
        std::function<INT()>([&]() { return src.next++; }), comps);
    rng->suppress_warnings = true;
    Rec rec(w, MAXID);
    auto loop = particle_loop(
        pg(g),
        [=](auto ID, auto I, auto R, auto V, auto O, auto N) {
          const INT id = ID.at(0);
          N.at(id) = 1;
          const int n = reads_of(pattern, id, comps);
          for (int c = 0; c < n; c++) {
            bool ok = false;
            V.at(id * SL + c) = R.at(I, c, &ok);
            O.at(id * SL + c) = ok ? 1 : 0;
          }
        },
        Access::read(Sym<INT>("ID")), Access::read(ParticleLoopIndex{}),
        Access::read(rng), Access::write(rec.val), Access::write(rec.ok),
        Access::write(rec.runs));
    std::set<INT> seen;
    bool valid = true;
    for (int k = 0; k < 2; k++) {
      const INT g0 = src.next;
      loop->execute();
      rec.get();
      Atomic::check(src, g0, rec, {0, 1, 2}, comps, pattern, 3 * comps, seen,
                    valid, rng);
    }
    mc::nontrivial();
  });
}

// Several generators in one loop, directly and as (nested) tuples.
static void tuples() {
  const int occ = mc::choose(3, "particles") * 2;
  const int nested = mc::choose(2, "nested");
  const int comps = 1 + mc::choose(2, "components");
  mc::ranks(1, [&](int) {
    World w({NC, 1});
    auto spec = rng_spec();
    auto g = std::make_shared<TG>(w.domain, spec, w.target);
    std::vector<Part> v;
    for (int k = 0; k < occ; k++)
      v.push_back(mkpart(k, k / 2));
    g->add_particles_local(to_set(v, spec));
    Source<INT> sa, sc;
    Source<REAL> sb;
    auto a = std::make_shared<HostPerParticleBlockRNG<INT>>(sa.host(), comps, 2);
    auto b = std::make_shared<HostPerParticleBlockRNG<REAL>>(sb.host(), comps, 1);
    auto c = std::make_shared<HostAtomicBlockKernelRNG<INT>>(sc.host(), comps, 3);
    auto z = null_kernel_rng<REAL>();
    Rec ra(w, MAXID), rb(w, MAXID), rc(w, MAXID);
    LocalArray<INT> other(w.target, 1, 0);
    std::set<INT> da, db, dc;
    bool valid = true;
    for (int rep = 0; rep < 2; rep++) {
      const INT ga = sa.next, gb = sb.next, gc = sc.next;
      auto put = [=](auto id, auto c, auto x, auto ok, auto &V, auto &O) {
        V.fetch_add(id * SL + c, (INT)x);
        O.fetch_add(id * SL + c, ok ? 1 : 0);
      };
      if (!nested) {
        auto t = tuple_rng(a, b, c, z);
        particle_loop(
            pg(g),
            [=](auto ID, auto I, auto T, auto VA, auto OA, auto NA, auto VB,
                auto OB, auto NB, auto VC, auto OC, auto NC_, auto X) {
              const INT id = ID.at(0);
              NA.fetch_add(id, 1);
              NB.fetch_add(id, 1);
              NC_.fetch_add(id, 1);
              for (int k = 0; k < comps; k++) {
                bool ok = false;
                const INT x = T.template get<0>().at(I, k, &ok);
                put(id, k, x, ok, VA, OA);
                ok = false;
                const REAL y = T.template get<1>().at(I, k, &ok);
                put(id, k, y, ok, VB, OB);
                ok = false;
                const INT q = Access::TupleRNG::get<2>(T).at(I, k, &ok);
                put(id, k, q, ok, VC, OC);
                X.fetch_add(0, (INT)T.template get<3>().at(I, k, &ok));
              }
            },
            Access::read(Sym<INT>("ID")), Access::read(ParticleLoopIndex{}),
            Access::read(t), Access::add(ra.val), Access::add(ra.ok),
            Access::add(ra.runs), Access::add(rb.val), Access::add(rb.ok),
            Access::add(rb.runs), Access::add(rc.val), Access::add(rc.ok),
            Access::add(rc.runs), Access::add(other))
            ->execute();
      } else {
        auto t = tuple_rng(tuple_rng(a, c), b);
        particle_loop(
            pg(g),
            [=](auto ID, auto I, auto T, auto VA, auto OA, auto NA, auto VB,
                auto OB, auto NB, auto VC, auto OC, auto NC_, auto X) {
              const INT id = ID.at(0);
              NA.fetch_add(id, 1);
              NB.fetch_add(id, 1);
              NC_.fetch_add(id, 1);
              for (int k = 0; k < comps; k++) {
                bool ok = false;
                const INT x =
                    T.template get<0>().template get<0>().at(I, k, &ok);
                put(id, k, x, ok, VA, OA);
                ok = false;
                const REAL y = T.template get<1>().at(I, k, &ok);
                put(id, k, y, ok, VB, OB);
                ok = false;
                const INT q =
                    T.template get<0>().template get<1>().at(I, k, &ok);
                put(id, k, q, ok, VC, OC);
              }
            },
            Access::read(Sym<INT>("ID")), Access::read(ParticleLoopIndex{}),
            Access::read(t), Access::add(ra.val), Access::add(ra.ok),
            Access::add(ra.runs), Access::add(rb.val), Access::add(rb.ok),
            Access::add(rb.runs), Access::add(rc.val), Access::add(rc.ok),
            Access::add(rc.runs), Access::add(other))
            ->execute();
      }
      ra.get();
      rb.get();
      rc.get();
      auto ids = visited(*g, 0, 0, NC);
      PerParticle::check(sa, ga, ra, ids, comps, da);
      PerParticle::check(sb, gb, rb, ids, comps, db);
      Atomic::check(sc, gc, rc, ids, comps, 0, (INT)ids.size() * comps, dc,
                    valid, c);
      MC_CHECK(other.get().at(0) == 0, "the null generator gives zero");
      if (ids.size())
        mc::nontrivial();
    }
  });
}

// Pair loops: one block per pair of the loop's lists.
static void pairs() {
  typedef CellwisePairListAbsolute<ParticleGroup, CellwisePairList> AbsS;
  const int shape = mc::choose(5, "list");
  const int comps = 1 + mc::choose(2, "components");
  const int atomic = mc::choose(2, "atomic");
  const int how = mc::choose(4, "cells");
  static const std::vector<std::vector<std::array<int, 3>>> L = {
      {{0, 0, 1}},
      {{0, 0, 1}, {0, 1, 2}, {2, 0, 1}},
      {{0, 0, 1}, {0, 2, 3}, {1, 0, 1}, {1, 0, 2}, {1, 1, 2}},
      {},
      {{1, 0, 1}, {2, 0, 1}}};
  mc::ranks(1, [&](int) {
    World w({NC, 1});
    auto spec = rng_spec();
    auto g = std::make_shared<TG>(w.domain, spec, w.target);
    std::vector<Part> v;
    for (int c = 0; c < NC; c++)
      for (int k = 0; k < 4; k++)
        v.push_back(mkpart(c * 4 + k, c));
    g->add_particles_local(to_set(v, spec));
    Source<INT> src;
    auto per =
        std::make_shared<HostPerParticleBlockRNG<INT>>(src.host(), comps, 2);
    auto ato =
        std::make_shared<HostAtomicBlockKernelRNG<INT>>(src.host(), comps, 2);
    ato->suppress_warnings = true;
    auto h = std::make_shared<CellwisePairListHost>(NC);
    for (auto &x : L[shape])
      h->push_back(x[0], x[1], x[2]);
    auto l = std::make_shared<CellwisePairListSimple>(w.target, NC);
    l->set(h);
    Rec rec(w, 256);
    // a pair is identified by its two particles
    std::vector<AbsS> abs{AbsS(pg(g), pg(g), l)};
    std::set<INT> seen;
    bool valid = true;
    auto kern = [=](auto IDi, auto IDj, auto I, auto R, auto V, auto O,
                    auto N) {
      const INT k = IDi.at(0) * 12 + IDj.at(0);
      N.fetch_add(k, 1);
      for (int c = 0; c < comps; c++) {
        bool ok = false;
        const INT x = R.at(I, c, &ok);
        V.fetch_add(k * SL + c, x);
        O.fetch_add(k * SL + c, ok ? 1 : 0);
      }
    };
    auto mk = [&](auto rng) {
      return particle_pair_loop(
          "rng", abs, kern, Access::A(Access::read(Sym<INT>("ID"))),
          Access::B(Access::read(Sym<INT>("ID"))),
          Access::read(ParticlePairLoopIndex{}), Access::read(rng),
          Access::add(rec.val), Access::add(rec.ok), Access::add(rec.runs));
    };
    auto run = [&](auto loop) {
      for (int rep = 0; rep < 2; rep++) {
        const INT g0 = src.next;
        int s = 0, e = NC;
        if (how == 0)
          loop->execute();
        else if (how == 1)
          loop->execute(s = 1, e = 3);
        else if (how == 2) {
          loop->execute(s = 0, e = 1);
        } else
          loop->execute(s = 1, e = 2);
        rec.get();
        std::vector<INT> ids;
        for (auto &x : L[shape])
          if (x[0] >= s && x[0] < e)
            ids.push_back((x[0] * 4 + x[1]) * 12 + x[0] * 4 + x[2]);
        std::set<INT> who(ids.begin(), ids.end());
        for (int k = 0; k < rec.n; k++) {
          MC_CHECK(rec.R[k] == (INT)who.count(k), "pair ", k, " ran ",
                   rec.R[k]);
          for (int c = 0; c < comps; c++) {
            const INT x = rec.V[k * SL + c];
            if (!who.count(k)) {
              MC_CHECK(x == 0, "stray");
              continue;
            }
            MC_CHECK(rec.O[k * SL + c] == 1, "invalid sample in a pair loop");
            MC_CHECK(x >= 1 && x < src.next, "sample ", x, " was not drawn");
            if (!atomic)
              MC_CHECK(x >= g0, "old sample");
            MC_CHECK(seen.insert(x).second, "sample ", x, " twice");
          }
        }
        if (who.size())
          mc::nontrivial();
      }
      MC_CHECK(atomic ? ato->valid_internal_state()
                      : per->valid_internal_state(),
               "state");
    };
    if (atomic)
      run(mk(ato));
    else
      run(mk(per));
  });
}

// The host function generator fills exactly the requested range.
static void draw() {
  const int n = mc::choose(8, "samples");
  const int block = 1 + mc::choose(5, "block");
  const int off = mc::choose(2, "offset");
  mc::ranks(1, [&](int) {
    World w({1, 1});
    INT next = 1;
    auto f = std::make_shared<HostRNGGenerationFunction<INT>>(
        std::function<INT()>([&]() { return next++; }));
    BufferDevice<INT> d(w.target, std::vector<INT>(10, -7));
    f->draw_random_samples(w.target, d.ptr + off, n, block);
    auto v = d.get();
    for (int k = 0; k < 10; k++) {
      const INT want = k >= off && k < off + n ? k - off + 1 : -7;
      MC_CHECK(v[k] == want, "entry ", k, " is ", v[k], " not ", want);
    }
    MC_CHECK(next == n + 1 && f->get_last_sample_size() == (size_t)n,
             "number of calls");
    // a failing device generator is reported
    auto q = std::make_shared<GenericDeviceRNGGenerationFunction<INT>>(
        std::function<int(INT *, const std::size_t)>(
            [&](INT *p, const std::size_t m) {
              MC_CHECK(p == d.ptr + off && m == (size_t)n, "arguments");
              return block == 1 ? 3 : 0;
            }));
    mc_expect_abort(1);
    const int a0 = mc_abort_count();
    try {
      q->draw_random_samples(w.target, d.ptr + off, n, block);
    } catch (mc::Aborted &) {
    }
    mc_expect_abort(0);
    MC_CHECK((mc_abort_count() > a0) == (block == 1),
             "the generator's error is not reported");
    mc::nontrivial();
  });
}

const mc_scenario mc_scenarios[] = {
    {"per_particle", per_particle},         {"atomic_block", atomic_block},
    {"atomic_schedules", atomic_schedules}, {"tuples", tuples},
    {"pairs", pairs},                       {"draw", draw}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) { return mc_main(c, v, mc_scenarios, mc_num_scenarios); }

// Real MPI: a worker is one "mpirun -n R" of this binary. Rank 0 speaks the
// worker protocol and broadcasts every job; all ranks take the same choices.
#include <sys/un.h>
#include <sys/stat.h>
#include <cstddef>
#include <filesystem>
extern char **environ;
void mpi_ls_init(int *rank, int *size);
void mpi_ls_bcast(void *p, size_t n);
void mpi_ls_exit();
static int group_ranks = 1;
static int listen_fd = -1;
static std::string sock_name, scratch, self;
static std::vector<std::string> extra_args;
static int scenario_ranks(const char *nm) {
  const char *p = strrchr(nm, '@');
  return p ? atoi(p + 1) : 1;
}
static sockaddr_un sock_addr(const std::string &nm, socklen_t &l) {
  sockaddr_un a{};
  a.sun_family = AF_UNIX;
  memcpy(a.sun_path + 1, nm.data(), nm.size()); // abstract
  l = offsetof(sockaddr_un, sun_path) + 1 + nm.size();
  return a;
}
static void ls_str(std::string &s) {
  uint32_t n = s.size();
  mpi_ls_bcast(&n, 4);
  s.resize(n);
  if (n)
    mpi_ls_bcast(&s[0], n);
}
static void *map_slot(const char *f) {
  int fd = open(f, O_RDWR);
  if (fd < 0 || ftruncate(fd, sizeof(Slot)))
    _exit(97);
  void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED, fd,
                 0);
  close(fd);
  return p;
}
static void group_worker(const char *name, const char *slotfile) {
  lockstep = true;
  mpi_ls_init(&ls_rank, &ls_size);
  slot = (Slot *)map_slot(slotfile);
  if (ls_rank < 16)
    slot->pids[ls_rank] = getpid();
  install_handlers();
  init_memory();
  int fd = -1;
  if (ls_rank == 0) {
    fd = socket(AF_UNIX, SOCK_STREAM, 0);
    socklen_t l;
    auto a = sock_addr(name, l);
    if (connect(fd, (sockaddr *)&a, l))
      _exit(96);
    int c = atoi(strrchr(slotfile, 't') + 1);
    wr(fd, &c, 4);
  }
  if (!verbose) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    dup2(n, 2);
  }
  for (;;) {
    std::vector<Job> stack;
    uint32_t hdr[2] = {0, 0};
    double t0 = now();
    uint32_t k = 0;
    if (ls_rank == 0) {
      if (!rd(fd, hdr, 8))
        mpi_ls_exit();
      std::string in(hdr[0], 0);
      rd(fd, &in[0], hdr[0]);
      const char *p = in.data();
      while (p < in.data() + in.size())
        stack.push_back(get_job(p));
      st = Stats{};
      outs.clear();
    }
    for (;;) {
      std::string s;
      if (ls_rank == 0 && !stack.empty() && k < hdr[1] &&
          (k == 0 || now() - t0 < 0.3)) {
        put_job(s, stack.back());
        fill_slot(stack.back());
        stack.pop_back();
      }
      ls_str(s);
      if (s.empty())
        break;
      const char *p = s.data();
      Job j = get_job(p);
      run_one(j);
      if (ls_rank == 0)
        children(j, stack);
      else {
        st = Stats{};
        outs.clear();
      }
      k++;
    }
    if (ls_rank == 0) {
      std::string o;
      o.append((char *)&st, sizeof st);
      uint32_t no = outs.size();
      o.append((char *)&no, 4);
      for (auto &x : outs) {
        o.append((char *)&x.first, 1);
        o.append((char *)&x.second, 8);
      }
      for (auto &j : stack)
        put_job(o, j);
      slot->state = 3;
      uint32_t n = o.size();
      wr(fd, &n, 4);
      wr(fd, o.data(), n);
    }
  }
}
static void group_cleanup() {
  std::error_code ec;
  if (scratch.rfind("/tmp/mcg-", 0) == 0)
    std::filesystem::remove_all(scratch, ec);
}
static void set_env() {
  setenv("OMPI_ALLOW_RUN_AS_ROOT", "1", 1);
  setenv("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1", 1);
  setenv("OMPI_MCA_plm", "isolated", 1);
  setenv("OMPI_MCA_btl", "self,vader", 1);
  setenv("OMPI_MCA_btl_vader_single_copy_mechanism", "none", 1);
  setenv("OMPI_MCA_mpi_yield_when_idle", "1", 1);
  setenv("OMPI_MCA_rmaps_base_oversubscribe", "1", 1);
  setenv("OMPI_MCA_hwloc_base_binding_policy", "none", 1);
  setenv("OMPI_MCA_orte_tmpdir_base", scratch.c_str(), 1);
  setenv("TMPDIR", scratch.c_str(), 1);
}
static std::vector<char *> mpirun_argv(std::vector<std::string> &a) {
  std::vector<char *> v;
  for (auto &s : a)
    v.push_back((char *)s.c_str());
  v.push_back(nullptr);
  return v;
}
static void group_init(int argc, char **argv, const std::string &replay,
                       const mc_scenario *s, int n, const std::string &only) {
  char b[4096];
  ssize_t l = readlink("/proc/self/exe", b, sizeof b - 1);
  self = std::string(b, l > 0 ? l : 0);
  std::string w0, w1;
  bool inmpi = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--group-worker") {
      w0 = argv[i + 1];
      w1 = argv[i + 2];
    } else if (a == "--ranks")
      group_ranks = atoi(argv[i + 1]);
    else if (a == "--in-mpi")
      inmpi = true;
  }
  if (!w0.empty()) {
    group_worker(w0.c_str(), w1.c_str());
    _exit(0);
  }
  if (inmpi) {
    lockstep = true;
    mpi_ls_init(&ls_rank, &ls_size);
    return;
  }
  snprintf(b, sizeof b, "/tmp/mcg-%d", (int)getpid());
  scratch = b;
  mkdir(b, 0700);
  set_env();
  if (!replay.empty()) {
    char nm[256] = "";
    FILE *f = fopen(replay.c_str(), "r");
    if (f) {
      if (fscanf(f, "scenario %255s", nm) != 1)
        nm[0] = 0;
      fclose(f);
    }
    std::vector<std::string> a = {"mpirun", "--oversubscribe", "-n",
                                  std::to_string(scenario_ranks(nm)), self};
    for (int i = 1; i < argc; i++)
      a.push_back(argv[i]);
    a.push_back("--in-mpi");
    auto v = mpirun_argv(a);
    pid_t p = fork();
    if (p == 0) {
      execvp("mpirun", v.data());
      _exit(95);
    }
    int stt = 0;
    waitpid(p, &stt, 0);
    group_cleanup();
    exit(WIFEXITED(stt) ? WEXITSTATUS(stt) : 1);
  }
  if (mc_tier)
    extra_args = {"--tier", "thorough"};
  if (verbose)
    extra_args.push_back("-v");
  sock_name = scratch;
  listen_fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  socklen_t sl;
  auto a = sock_addr(sock_name, sl);
  if (bind(listen_fd, (sockaddr *)&a, sl) || listen(listen_fd, 16)) {
    perror("mc: socket");
    exit(98);
  }
}
// Every attempt to start a worker has its own slot, session directory and
// shared memory files.
static std::map<int, W *> awaited;
static void make_slot(W &) {}
static bool starting = true;
static void launch(W &w) {
  static int k = 0;
  const int id = k++;
  if (w.slot)
    munmap(w.slot, sizeof(Slot));
  w.slotfile = scratch + "/slot" + std::to_string(id);
  close(open(w.slotfile.c_str(), O_CREAT | O_RDWR, 0600));
  w.slot = (Slot *)map_slot(w.slotfile.c_str());
  w.slot->state = 0;
  w.slot->kind[0] = 0;
  w.slot->claim = 0;
  for (auto &p : w.slot->pids)
    p = 0;
  w.fd = -1;
  fflush(stdout);
  std::vector<std::string> a = {"mpirun", "--oversubscribe", "-n",
                                std::to_string(group_ranks), self,
                                "--group-worker", sock_name, w.slotfile};
  a.insert(a.end(), extra_args.begin(), extra_args.end());
  auto v = mpirun_argv(a);
  const std::string dir = scratch + "/d" + std::to_string(id);
  mkdir(dir.c_str(), 0700);
  pid_t p = fork();
  if (p == 0) {
    setenv("OMPI_MCA_orte_tmpdir_base", dir.c_str(), 1);
    setenv("OMPI_MCA_btl_vader_backing_directory", dir.c_str(), 1);
    setenv("TMPDIR", dir.c_str(), 1);
    int nl = open("/dev/null", O_RDWR);
    dup2(nl, 0);
    if (!verbose) {
      dup2(nl, 1);
      dup2(nl, 2);
    }
    execvp("mpirun", v.data());
    _exit(95);
  }
  w.pid = p;
  awaited[id] = &w;
}
static void reap(W &w);
static void accept_workers() {
  pollfd pf{listen_fd, POLLIN, 0};
  std::map<int, double> since;
  for (int tries = 0; !awaited.empty();) {
    if (poll(&pf, 1, 50) > 0 && (pf.revents & POLLIN)) {
      int fd = accept4(listen_fd, nullptr, nullptr, SOCK_CLOEXEC);
      int id = -1;
      if (fd >= 0 && rd(fd, &id, 4) && awaited.count(id)) {
        awaited[id]->fd = fd;
        awaited.erase(id);
      } else if (fd >= 0)
        close(fd);
      continue;
    }
    auto all = awaited;
    for (auto &x : all) {
      if (!since.count(x.first))
        since[x.first] = now();
      int stt;
      const bool dead = waitpid(x.second->pid, &stt, WNOHANG) == x.second->pid;
      if (!dead && now() - since[x.first] < 60)
        continue;
      if (++tries > 12) {
        fprintf(stderr, "mc: mpirun worker did not start\n");
        exit(98);
      }
      awaited.erase(x.first);
      if (!dead)
        reap(*x.second);
      usleep(200000);
      launch(*x.second);
    }
  }
}
static void spawn(W &w) {
  launch(w);
  if (!starting)
    accept_workers();
}
static void kill_ranks(W &w) {
  for (auto p : w.slot->pids)
    if (p > 0)
      kill(p, SIGKILL);
}
static void reap(W &w) {
  kill_ranks(w);
  for (int t = 0; t < 300; t++) {
    int stt;
    if (waitpid(w.pid, &stt, WNOHANG) == w.pid)
      return;
    usleep(10000);
  }
  kill(w.pid, SIGKILL);
  waitpid(w.pid, nullptr, 0);
}

#include <signal.h>
#include <sys/prctl.h>
// symx: symbolic execution of LLVM bitcode.  One worker process per core; a
// worker that runs dry receives a decision prefix and rebuilds the state.
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>

#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "shared.h"
#include "symx.h"

using namespace llvm;

double Exec::now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
bool Exec::timeUp() { return now() - startTime > opt.maxTime; }

void Exec::runCtors(State& s) {
  auto* g = M->getNamedGlobal("llvm.global_ctors");
  if (!g || !g->hasInitializer()) return;
  auto* arr = dyn_cast<ConstantArray>(g->getInitializer());
  if (!arr) return;
  std::vector<std::pair<uint64_t, Function*>> fs;
  for (auto& op : arr->operands()) {
    auto* cs = cast<ConstantStruct>(op);
    if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
      fs.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
  }
  std::stable_sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.first < b.first; });
  inCtors = true;
  S = &s;
  for (auto& p : fs) {
    Args a;
    s.th.clear();
    s.th.emplace_back();
    s.cur = 0;
    pushFrame(getFunc(p.second), a, nullptr);
    uint64_t un = stat.unsupported, nv = nviol;
    try {
      while (true) step();
    } catch (StateEnd&) {
    }
    if (stat.unsupported != un || nviol != nv) {
      fprintf(stderr, "global constructor %s failed\n", p.second->getName().str().c_str());
      for (auto& u : unsup) fprintf(stderr, "  %s\n", u.first.c_str());
      _exit(4);
    }
  }
  inCtors = false;
  s.steps = 0;
  s.dec.clear();
  s.cursor = 0;
}

static State* base = nullptr;
static Function* entryFn = nullptr;
static char* slots = nullptr;

static State* fresh() {
  return new State(*base);
}

void Exec::donate() {
  if (!sh || sh->idle == 0 || work.empty()) return;
  if (sh->count >= sh->idle + 2) return;
  State* t = work.front();
  size_t need = sizeof(Packet) + t->dec.size() * 8 + t->model->size() * 16 + 32;
  if (need > Shared::SLOTSZ) return;
  pthread_mutex_lock(&sh->mu);
  if (sh->nfree == 0) {
    pthread_mutex_unlock(&sh->mu);
    return;
  }
  int s = sh->freeSlots[--sh->nfree];
  char* p = slots + (size_t)s * Shared::SLOTSZ;
  Packet pk{(uint32_t)t->dec.size(), (uint32_t)t->model->size()};
  memcpy(p, &pk, sizeof pk);
  p += sizeof pk;
  memcpy(p, t->dec.data(), t->dec.size() * 8);
  p += t->dec.size() * 8;
  memcpy(p, t->model->data(), t->model->size() * 16);
  sh->order[sh->count] = s;
  sh->count = sh->count + 1;
  pthread_mutex_unlock(&sh->mu);
  work.pop_front();
  delete t;
}

static uint64_t rssMB() {
  FILE* f = fopen("/proc/self/statm", "r");
  if (!f) return 0;
  unsigned long a = 0, b = 0;
  if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0;
  fclose(f);
  return b * 4096 >> 20;
}

void Exec::workerLoop() {
  solver.timeoutMs = opt.solverMs;
  solver.init();
  samplesLeft = opt.samples;
  if (workerId == 0) work.push_back(fresh());
  uint64_t n = 0;
  while (true) {
    if (sh->stop || sh->timeout) break;
    if (work.empty()) {
      // wait for a packet
      __sync_fetch_and_add(&sh->idle, 1);
      bool got = false;
      while (true) {
        if (sh->stop || sh->timeout) break;
        pthread_mutex_lock(&sh->mu);
        if (sh->count > 0) {
          int s = sh->order[0];
          for (int i = 1; i < sh->count; i++) sh->order[i - 1] = sh->order[i];
          sh->count = sh->count - 1;
          char* p = slots + (size_t)s * Shared::SLOTSZ;
          Packet pk;
          memcpy(&pk, p, sizeof pk);
          p += sizeof pk;
          State* t = fresh();
          t->dec.resize(pk.ndec);
          memcpy(t->dec.data(), p, pk.ndec * 8);
          p += pk.ndec * 8;
          auto m = std::make_shared<Model>(pk.nmodel);
          memcpy(m->data(), p, pk.nmodel * 16);
          t->model = m;
          t->donated = true;
          sh->freeSlots[sh->nfree++] = s;
          __sync_fetch_and_sub(&sh->idle, 1);
          pthread_mutex_unlock(&sh->mu);
          work.push_back(t);
          stat.replays++;
          got = true;
          break;
        }
        bool done = sh->idle == sh->nworkers;
        pthread_mutex_unlock(&sh->mu);
        if (done) break;
        usleep(500);
      }
      if (!got) break;
    }
    S = work.back();
    work.pop_back();
    runState();
    donate();
    if ((++n & 63) == 0 && rssMB() > opt.memMB) {
      sh->memout = 1;
      sh->timeout = 1;
    }
  }
  stat.killed += work.size();
  writeWorker();
}

void Exec::writeWorker() {
  auto p = [&](const char* k, double v) { fprintf(log, "stat\t%s\t%.6g\n", k, v); };
  p("paths", stat.paths);
  p("unexplored", stat.killed);
  p("infeasible", stat.infeasible);
  p("unsupported", stat.unsupported);
  p("steps", stat.steps);
  p("forks", stat.forks);
  p("replays", stat.replays);
  p("unknown", stat.unknown);
  p("maxDepth", stat.maxDepth);
  p("stepLimit", stat.stepLimit);
  p("uninitReads", stat.uninitReads);
  p("schedPoints", stat.schedPoints);
  p("queries", solver.st.queries);
  p("cacheHits", solver.st.cacheHits);
  p("modelHits", solver.st.modelHits);
  p("z3calls", solver.st.z3calls);
  p("z3sat", solver.st.z3sat);
  p("z3unsat", solver.st.z3unsat);
  p("z3time", solver.st.z3time);
  p("z3max", solver.st.maxTime);
  p("asserts", solver.st.asserts);
  p("exprs", pool.numNodes);
  p("timeout", sh->timeout);
  p("memout", sh->memout);
  for (auto& c : covers) fprintf(log, "cover\t%s\t%lu\n", c.first.c_str(), c.second);
  for (auto& c : unsup) fprintf(log, "unsup\t%s\t%lu\n", c.first.c_str(), c.second);
  for (auto& c : ends) fprintf(log, "end\t%s\t%lu\n", c.first.c_str(), c.second);
  for (auto& c : assertCount) fprintf(log, "assert\t%s\t%lu\n", c.first.c_str(), c.second);
  for (auto& f : funcs) {
    if (!f.second->execs) continue;
    std::string file;
    if (auto* sp = f.first->getSubprogram())
      if (auto* fi = sp->getFile()) {
        file = fi->getFilename().str();
        if (!file.empty() && file[0] != '/') file = fi->getDirectory().str() + "/" + file;
      }
    fprintf(log, "func\t%s\t%s\t%lu\n", demangle(f.second->name).c_str(), file.c_str(),
            f.second->execs);
  }
  fprintf(log, "done\n");
  fclose(log);
}

int main(int argc, char** argv) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  Exec X;
  std::string file;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&](const char* k, std::string& out) {
      std::string p = std::string("--") + k + "=";
      if (a.rfind(p, 0) == 0) {
        out = a.substr(p.size());
        return true;
      }
      return false;
    };
    std::string v;
    if (val("entry", v)) X.opt.entry = v;
    else if (val("out", v)) X.opt.out = v;
    else if (val("workers", v)) X.opt.workers = stoi(v);
    else if (val("time", v)) X.opt.maxTime = stod(v);
    else if (val("steps", v)) X.opt.maxSteps = stoull(v);
    else if (val("hang", v)) X.opt.hang = stoull(v);
    else if (val("solver-ms", v)) X.opt.solverMs = stoul(v);
    else if (val("preempt", v)) X.opt.maxPreempt = stoi(v);
    else if (val("delays", v)) X.opt.delays = stoi(v);
    else if (val("samples", v)) X.opt.samples = stoi(v);
    else if (val("mem", v)) X.opt.memMB = stoull(v);
    else if (a == "--no-stop") X.opt.stopFirst = false;
    else if (a == "--atomics") X.opt.atomicSched = true;
    else if (a == "--fork-select") X.opt.forkSelect = true;
    else if (a.rfind("-p", 0) == 0) {
      auto eq = a.find('=');
      X.opt.params[a.substr(2, eq - 2)] = stoull(a.substr(eq + 1));
    } else
      file = a;
  }
  X.startTime = X.now();
  X.load(file);
  X.registerHandlers();
  entryFn = X.M->getFunction(X.opt.entry);
  if (!entryFn || entryFn->isDeclaration()) {
    fprintf(stderr, "no entry %s\n", X.opt.entry.c_str());
    return 3;
  }
  base = new State;
  base->model = std::make_shared<Model>();
  X.setupGlobals(*base);
  X.runCtors(*base);
  double t1 = X.now();
  base->th.clear();
  base->th.emplace_back();
  base->cur = 0;
  X.S = base;
  Args none;
  X.pushFrame(X.getFunc(entryFn), none, nullptr);
  X.S = nullptr;
  int n = X.opt.workers;
  X.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  slots = (char*)mmap(nullptr, (size_t)Shared::SLOTS * Shared::SLOTSZ, PROT_READ | PROT_WRITE,
                      MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_mutexattr_t at;
  pthread_mutexattr_init(&at);
  pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED);
  pthread_mutex_init(&X.sh->mu, &at);
  X.sh->nworkers = n;
  for (int i = 0; i < Shared::SLOTS; i++) X.sh->freeSlots[i] = i;
  X.sh->nfree = Shared::SLOTS;
  X.startTime = X.now();
  std::vector<pid_t> pids;
  for (int i = 0; i < n; i++) {
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      X.workerId = i;
      X.log = fopen((X.opt.out + "." + std::to_string(i)).c_str(), "w");
      if (!X.log) _exit(5);
      X.workerLoop();
      _exit(0);
    }
    pids.push_back(p);
  }
  int rc = 0;
  int left = n;
  while (left) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p <= 0) break;
    left--;
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      fprintf(stderr, "worker died: status %d\n", st);
      rc = 6;
      X.sh->stop = 1;
    }
  }
  fprintf(stderr, "setup %.2fs\n", t1 - X.startTime);
  return rc;
}

// Driver: harness PROP SEED SECONDS MAXCASES FIRSTCASE SCRATCHDIR
// Runs deterministic cases in a child process. Prints one line
//   RESULT ok cases=N distinct=D ; followed by a few SAMPLE lines
//   RESULT fail case=I kind=<violation|crash|hang> ; followed by lines MSG ... and INPUT ...
#include "cases.hpp"
#include <chrono>
#include <cstring>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

extern int extraTimeSeries __attribute__((weak)); // a statistics counter that would overflow over millions of searches
using namespace vh;
struct Shared { volatile long current; volatile long done; volatile long distinct; char msg[4096]; char input[65536]; char samples[3][2048]; };
static Shared* sh;

static int sizeOf(long i) { return 1 + (int)((i / 8) % 12); }

static void runCase(CaseFn f, uint64_t seed, long i, const std::string& dir) {
  memset(sh->input, 0, sizeof(sh->input)); // the description stays readable even if the case crashes
  Ctx c(seed * 1000003ull + (uint64_t)i, sizeOf(i), dir, sh->input, sizeof(sh->input) - 1);
  f(c);
}

int main(int argc, char** argv) {
  if (argc < 7) return 2;
  std::map<std::string, CaseFn> all = {
#define E(x) {#x, case##x}
    E(C01), E(C02), E(C03), E(C04), E(C05), E(C06), E(C07), E(C08), E(C09), E(C10), E(C11), E(C12), E(C13), E(C14), E(C15), E(C16), E(C17), E(C18)};
  auto it = all.find(argv[1]);
  if (it == all.end()) return 2;
  uint64_t seed = strtoull(argv[2], 0, 10);
  double seconds = atof(argv[3]);
  long maxc = atol(argv[4]), first = atol(argv[5]);
  std::string dir = argv[6];
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, sizeof(Shared));
  pid_t pid = fork();
  if (pid == 0) {
    std::cout.setstate(std::ios::failbit); // the library reports progress on stdout
    auto t0 = std::chrono::steady_clock::now();
    std::set<size_t> seen;
    for (long i = first; i < first + maxc; i++) {
      sh->current = i;
      if (&extraTimeSeries) extraTimeSeries = 0;
      try { runCase(it->second, seed, i, dir); }
      catch (Failure& e) { strncpy(sh->msg, e.what.c_str(), sizeof(sh->msg) - 1); _exit(3); }
      catch (std::exception& e) { snprintf(sh->msg, sizeof(sh->msg), "unexpected exception: %s", e.what()); _exit(3); }
      if (seen.insert(std::hash<std::string>()(sh->input)).second) {
        long n = sh->distinct++;
        if (n < 3 || n % 997 == 0) strncpy(sh->samples[n % 3], sh->input, sizeof(sh->samples[0]) - 1);
      }
      sh->done++;
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds) break;
    }
    _exit(0);
  }
  int st = 0;
  long last = -1; double stuck = 0; bool hang = false;
  while (true) {
    pid_t p = waitpid(pid, &st, WNOHANG);
    if (p == pid) break;
    usleep(20000);
    if (sh->current == last) stuck += 0.02; else { stuck = 0; last = sh->current; }
    if (stuck > 60) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
  }
  if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    printf("RESULT ok cases=%ld distinct=%ld\n", sh->done, sh->distinct);
    for (auto& x : sh->samples) if (x[0]) printf("SAMPLE %s\n", x);
    return 0;
  }
  const char* kind = hang ? "hang" : (WIFEXITED(st) && WEXITSTATUS(st) == 3) ? "violation" : "crash";
  printf("RESULT fail case=%ld kind=%s done=%ld\n", sh->current, kind, sh->done);
  printf("MSG %s\n", sh->msg[0] ? sh->msg : hang ? "a case did not finish within 60 s" : "the process died (see the sanitizer report)");
  printf("INPUT %s\n", sh->input);
  return 1;
}

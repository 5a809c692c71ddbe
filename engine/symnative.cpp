// Native side of the harness interface: replays a witness against the real build.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <deque>
#include <map>
#include <string>
#include <unistd.h>
#include <vector>
#include "sym.h"
// inputs are matched by name and occurrence: compilers may evaluate function arguments in different orders
static std::map<std::string, std::deque<uint64_t>> wit;
static std::vector<long long> params;
static uint64_t next(const char* name) {
  auto& q = wit[name];
  if (q.empty()) { printf("REPLAY-DIVERGED: input '%s' requested beyond the witness\n", name); fflush(stdout); _exit(12); }
  uint64_t v = q.front();
  q.pop_front();
  return v;
}
extern "C" {
uint64_t sym_bits(const char* n, unsigned) { return next(n); }
uint64_t sym_range(const char* n, uint64_t, uint64_t) { return next(n); }
void sym_assume(bool c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(11); } }
void sym_check(bool c, const char* l) { if (!c) { printf("CHECK-FAILED %s\n", l); fflush(stdout); _exit(10); } }
void sym_cover(const char* l) { printf("COVER %s\n", l); }
uint64_t sym_pick(uint64_t v) { return v; }
bool sym_branch(bool c) { return c; }
uint64_t sym_summary(uint64_t v) { return v; }
int sym_param(int i) { return i < (int)params.size() ? (int)params[i] : 0; }
void sym_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
void sym_dump(const char* n, uint64_t v) { printf("DUMP %s = %llu (0x%llx)\n", n, (unsigned long long)v, (unsigned long long)v); }
}
int main(int argc, char** argv) {
  // usage: prog ENTRY WITNESS-FILE [param...]; witness lines are "name value"
  if (argc < 3) return 3;
  std::ifstream f(argv[2]);
  std::string line;
  while (std::getline(f, line)) {
    size_t p = line.rfind(' ');
    if (p == std::string::npos) continue;
    wit[line.substr(0, p)].push_back(strtoull(line.c_str() + p + 1, nullptr, 10));
  }
  for (int i = 3; i < argc; ++i) params.push_back(atoll(argv[i]));
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { printf("no entry %s\n", argv[1]); return 3; }
  fn();
  printf("DONE\n");
  return 0;
}

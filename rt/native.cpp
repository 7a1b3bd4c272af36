// Native side of the harness interface: replays one recorded input sequence
// against the compiled implementation.
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <map>
#include <string>
#include <vector>

#include "sx.h"

static std::vector<std::pair<std::string, uint64_t>> inputs;
static size_t pos = 0;
static std::map<std::string, uint64_t> params;

static void leave(int code) {
  fflush(stdout);
  fflush(stderr);
  _exit(code);
}
uint64_t sx_next(const char* name) {
  if (pos >= inputs.size()) {
    printf("REPLAY-END input %s\n", name);
    leave(77);
  }
  if (inputs[pos].first != name) {
    printf("REPLAY-MISMATCH %s vs %s\n", inputs[pos].first.c_str(), name);
    leave(76);
  }
  return inputs[pos++].second;
}
extern "C" {
uint64_t symx_u64(const char* n) { return sx_next(n); }
uint32_t symx_u32(const char* n) { return (uint32_t)sx_next(n); }
uint16_t symx_u16(const char* n) { return (uint16_t)sx_next(n); }
uint8_t symx_u8(const char* n) { return (uint8_t)sx_next(n); }
uint64_t symx_range(const char* n, uint64_t lo, uint64_t hi) {
  uint64_t v = sx_next(n);
  if (v < lo || v > hi) leave(77);
  return v;
}
uint64_t symx_choice(const char* n, uint64_t k) {
  uint64_t v = sx_next(n);
  if (v >= k) leave(77);
  return v;
}
uint64_t symx_concretize(uint64_t v) { return v; }
void symx_assume(bool c) {
  if (!c) {
    printf("REPLAY-ASSUME\n");
    leave(77);
  }
}
void symx_assert(bool c, const char* msg) {
  if (!c) {
    printf("REPLAY-ASSERT %s\n", msg);
    leave(99);
  }
}
void symx_fail(const char* msg) { symx_assert(false, msg); }
void symx_cover(const char* n) { printf("COVER %s\n", n); }
void symx_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
uint64_t symx_param(const char* n, uint64_t d) {
  auto it = params.find(n);
  return it == params.end() ? d : it->second;
}
int getpagesize() { return (int)symx_param("pagesize", 4096); }
uint64_t symx_native() { return 1; }
void symx_endpath() { leave(0); }
void symx_print(const char* m, uint64_t v) { printf("PRINT %s %llu\n", m, (unsigned long long)v); }
void* symx_alloc(uint64_t n) { return malloc(n); }
void symx_free(void* p) { free(p); }
uint64_t symx_heapcount() { return 0; }
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  FILE* f = fopen(argv[2], "r");
  if (!f) return 2;
  char name[4096];
  unsigned long long v;
  while (fscanf(f, "%4095s %llu", name, &v) == 2) inputs.emplace_back(name, v);
  fclose(f);
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i];
    auto eq = a.find('=');
    if (eq != std::string::npos) params[a.substr(0, eq)] = strtoull(a.c_str() + eq + 1, nullptr, 10);
  }
  // files of the code under test end up in a directory of their own
  char dir[] = "filesXXXXXX";
  if (!mkdtemp(dir) || chdir(dir)) return 2;
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) {
    printf("no entry\n");
    return 2;
  }
  fn();
  printf("REPLAY-DONE\n");
  leave(0);
}

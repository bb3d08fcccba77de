// Drives the MemorySanitizer build of c07m, one process per item.
#include "mc.hpp"

static std::string
run(int fam, int n, uint64_t a, uint64_t c)
{
  const std::string cmd = mc::fmt("%s %d %d %llu %llu 2>&1", MSAN_EXE, fam, n, (unsigned long long)a, (unsigned long long)c);
  FILE* p = popen(cmd.c_str(), "r");
  if (!p)
    return "";
  std::string out;
  char b[512];
  while (fgets(b, sizeof b, p))
    out += b;
  const int st = pclose(p);
  mc::states(c);
  mc::transitions(c);
  mc::traces(c);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && out.rfind("ok\n") != std::string::npos)
    return "";
  const size_t w = out.find("WARNING: MemorySanitizer"), f = out.find("    #0");
  return mc::fmt("N=%d: %s", n, out.substr(0, 300).c_str()) + (w != std::string::npos && f != std::string::npos ? " " + out.substr(f, 500) : "");
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    static const char* NM[] = { "signing and verification", "recomputation, matrix, tree, signing", "hostile bytes", "candidate generation", "signature codec", "byte array sampler" };
    static const int Q[] = { 400, 160, 240, 120, 160, 40 };
    for (int n = 512; n <= 1024; n *= 2)
      for (int f = 0; f < 6; f++)
        mc::add(mc::fmt("N=%d: %s (uninitialised memory)", n, NM[f]), Q[f] * (mc::quick ? 1 : 20), [f, n](uint64_t i) {
          mc::outcome(std::string(NM[f]) + ": no use of uninitialised memory", 4);
          return run(f, n, 4 * i, 4);
        }, 1, 120);
  });
}

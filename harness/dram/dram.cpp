// Drives the DRAM model through its public interface and logs acceptances and
// completions; the commands come from the model's own command trace.
// dram.txt: "ini cycles", then "gap addr write" per request: gap cycles after
// the previous one was accepted it is offered until accepted.
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
#include "memory_system.h"

static FILE *f;
static unsigned long long clk = 0;
static long pending = 0;
static void done(uint64_t a, int w) {
  fprintf(f, "D %llu %llx %d\n", clk, (unsigned long long)a, w);
  pending--;
}

int main() {
  std::ifstream in("dram.txt");
  std::string ini;
  unsigned long long cycles;
  in >> ini >> cycles;
  f = fopen("dram.log", "w");
  dramsim3::MemorySystem mem(ini, ".", [](uint64_t a) { done(a, 0); }, [](uint64_t a) { done(a, 1); }, 0);
  fprintf(f, "I %d %d %d %d %d %d %d %d %d\n", mem.GetChannels(), mem.GetRanks(), mem.GetBankGroups(), mem.GetBanksPerGroup(), mem.GetRows(), mem.GetCols(), mem.GetBusBits(),
          mem.GetBurstLength(), mem.GetQueueSize());
  fflush(f);
  long gap = -1;
  std::string hex;
  int w = 0;
  uint64_t a = 0;
  bool have = false, more = true;
  long wait = 0;
  for (; clk < cycles; clk++) {
    // several requests may be accepted in one cycle
    while (true) {
      if (!have && more) {
        if (in >> gap >> hex >> w) {
          a = strtoull(hex.c_str(), nullptr, 16);
          have = true;
          wait = gap;
        } else more = false;
      }
      if (!have) break;
      if (wait > 0) { wait--; break; }
      if (!mem.WillAcceptTransaction(a, w)) break;
      fprintf(f, "Q %llu %llx %d\n", clk, (unsigned long long)a, w);
      pending++;
      mem.AddTransaction(a, w);
      have = false;
    }
    mem.ClockTick();
  }
  fprintf(f, "E %llu %d\n", clk, have || more ? 1 : 0);
  fclose(f);
  fflush(stdout);
  std::_Exit(0);
}

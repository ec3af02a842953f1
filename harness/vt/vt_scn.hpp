// Scenario-driven design used by the conformance checks.  It is an ordinary
// RAD-Sim design (modules, placement and clock files, generated main.cpp) whose
// modules offer and accept beats as a scenario file says and write down every
// handshake they see.
#pragma once
#include <cstdio>
#include <deque>
#include <map>
#include <string>
#include <vector>

struct VtItem {
  int gap = 0;            // module cycles to wait before offering
  int tmo = 0;            // >0: withdraw after that many cycles without ready
  int dst_rad = 0;
  std::string dst;        // full name of the destination port
  std::string data, user; // hex
  int last = 0;
  long nb = 0;            // not before this many ns
  // memory-mapped fields
  std::string addr;
  int len = 0, size = 0, burst = 0, id = 0, resp = 0;
  int after = 0;          // wait for that many taken beats of trigger channel
};

struct VtChan {           // one direction of one port
  std::string mod, port, chan; // chan: "s" for streams, ar/aw/w/r/b
  bool sender = false;
  std::vector<VtItem> items;
  std::string pat = "1";  // ready pattern, repeated
  int lazy = -1;          // >=0: ready only that many cycles after valid
};

struct VtPort {
  std::string mod, name;
  bool master = false, mm = false;
  unsigned dataw = 0, type = 0;
};

struct VtMod {
  std::string name;
  std::vector<VtPort> ports;
};

struct VtScn {
  std::vector<VtMod> mods;
  std::map<std::string, VtChan> chans; // key mod.port/chan
  long drain_ns = 0, quiet_ns = 0, max_ns = 0;
  long done_ns = -1;      // report done at this time whatever happens
  int done_always = 0;    // 1: report done only at done_ns
  int fail = 0;
  std::vector<long> fail_ns;  // report a failure at these times
  int watch = 0;          // log the end of the simulation
  int talk = 0;           // 1: log at every level, record this many traces
  std::string design;     // design class that was instantiated
  long reset_cycles = 2;
  std::string place = "vt.place", clks = "vt.clks";
};

const VtScn &vt_scenario(unsigned rad);
void vt_log(const std::string &line);
void vt_flush();
extern long vt_activity_ns;   // time of the last handshake anywhere
extern int vt_live;           // number of RADs that have not finished

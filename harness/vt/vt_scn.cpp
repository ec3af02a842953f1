#include <vt_scn.hpp>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>

long vt_activity_ns = 0;
int vt_live = 0;
static FILE *vt_log_file = nullptr;

static void vt_die(int sig) {
  vt_flush();
  signal(sig, SIG_DFL);
  raise(sig);
}

void vt_log(const std::string &line) {
  if (!vt_log_file) {
    vt_log_file = fopen("events.ndjson", "w");
    signal(SIGABRT, vt_die);
    signal(SIGSEGV, vt_die);
    signal(SIGFPE, vt_die);
    signal(SIGTERM, vt_die);
  }
  fputs(line.c_str(), vt_log_file);
  fputc('\n', vt_log_file);
}
void vt_flush() {
  if (vt_log_file) fflush(vt_log_file);
}

const VtScn &vt_scenario(unsigned rad) {
  static std::map<unsigned, VtScn> cache;
  auto it = cache.find(rad);
  if (it != cache.end()) return it->second;
  VtScn &s = cache[rad];
  std::string fn = "scenario" + std::to_string(rad) + ".txt";
  std::ifstream f(fn);
  if (!f) { std::cerr << "no " << fn << std::endl; exit(97); }
  std::string line;
  while (std::getline(f, line)) {
    std::stringstream ss(line);
    std::string k;
    ss >> k;
    if (k == "drain_ns") ss >> s.drain_ns;
    else if (k == "quiet_ns") ss >> s.quiet_ns;
    else if (k == "max_ns") ss >> s.max_ns;
    else if (k == "done_ns") ss >> s.done_ns;
    else if (k == "done_always") ss >> s.done_always;
    else if (k == "fail") ss >> s.fail;
    else if (k == "fail_ns") { long x; while (ss >> x) s.fail_ns.push_back(x); }
    else if (k == "watch") ss >> s.watch;
    else if (k == "talk") ss >> s.talk;
    else if (k == "reset") ss >> s.reset_cycles;
    else if (k == "place") ss >> s.place;
    else if (k == "clks") ss >> s.clks;
    else if (k == "mod") { VtMod m; ss >> m.name; s.mods.push_back(m); }
    else if (k == "port") { // port mod name m|s axis|aximm dataw type
      VtPort p; std::string ms, kind;
      ss >> p.mod >> p.name >> ms >> kind >> p.dataw >> p.type;
      p.master = ms == "m"; p.mm = kind == "aximm";
      for (auto &m : s.mods) if (m.name == p.mod) m.ports.push_back(p);
    } else if (k == "ready") { // ready mod.port/chan lazy pattern
      std::string key; ss >> key;
      VtChan &c = s.chans[key]; ss >> c.lazy >> c.pat;
    } else if (k == "send") { // stream beat
      std::string key; VtItem i; ss >> key;
      VtChan &c = s.chans[key]; c.sender = true;
      ss >> i.gap >> i.tmo >> i.nb >> i.dst_rad >> i.dst >> i.data >> i.user >> i.last;
      c.items.push_back(i);
    } else if (k == "mm") { // memory-mapped beat
      std::string key; VtItem i; ss >> key;
      VtChan &c = s.chans[key]; c.sender = true;
      ss >> i.gap >> i.tmo >> i.nb >> i.after >> i.dst >> i.addr >> i.data >> i.user >> i.last >> i.len >> i.size >> i.burst >> i.id >> i.resp;
      c.items.push_back(i);
    }
  }
  return s;
}

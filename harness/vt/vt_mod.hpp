#pragma once
#include <design_context.hpp>
#include <radsim_module.hpp>
#include <vt_scn.hpp>
#include <systemc.h>

// State of one valid/ready channel seen from the module.
struct VtSend {
  std::string key;
  const VtChan *c = nullptr;
  size_t pos = 0;
  int wait = 0, age = 0;
  bool offering = false;
  unsigned idle = 0;       // cycles since the last offer
};
struct VtRecv {
  std::string key;
  const VtChan *c = nullptr;
  size_t cyc = 0;
  int seen = 0;
  bool shown = false;      // last sample was valid
  bool taken = false;      // and was taken
  std::string what;
  long count = 0;          // beats taken
};

class vt_mod : public RADSimModule {
public:
  RADSimDesignContext *rd;
  const VtMod &cfg;
  sc_in<bool> rst;
  std::map<std::string, axis_master_port *> sm;
  std::map<std::string, axis_slave_port *> ss;
  std::map<std::string, aximm_master_port *> mm;
  std::map<std::string, aximm_slave_port *> ms;
  std::map<std::string, VtSend> snd;
  std::map<std::string, VtRecv> rcv;
  long edges = 0;
  double first_edge = -1, last_edge = -1;
  vt_mod(const sc_module_name &name, RADSimDesignContext *rd, const VtMod &cfg);
  void Tick();
  void RegisterModuleInfo() override;
  bool AllSent();
  SC_HAS_PROCESS(vt_mod);

private:
  VtSend &Snd(const std::string &key);
  VtRecv &Rcv(const std::string &key);
  bool NextReady(VtRecv &r, bool valid, bool hs);
  void See(VtRecv &r, bool valid, bool ready, const std::string &what);
  const VtItem *Idle(VtSend &s, VtItem &x);
  const VtItem *Step(VtSend &s, bool valid, bool ready, const std::string &what, const std::string &trig);
};
std::vector<vt_mod *> &vt_mods();
std::vector<RADSimDesignContext *> &vt_ctxs();  // by device

#pragma once
#include <vt_system.hpp>
#include <vt_scn.hpp>
// a second design of a cluster: the same modules under another name
class vu_system : public vt_system {
public:
  vu_system(const sc_module_name &name, sc_clock *clk, RADSimDesignContext *rd) : vt_system(name, clk, rd) {
    if (vt_scenario(rd->rad_id).watch) vt_log("{\"e\":\"design\",\"p\":\"r" + std::to_string(rd->rad_id) + "\",\"d\":\"vu\",\"t\":0}");
  }
};

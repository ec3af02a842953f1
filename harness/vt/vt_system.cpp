#include <vt_system.hpp>
vt_system::vt_system(const sc_module_name &name, sc_clock *driver_clk_sig, RADSimDesignContext *rd) : sc_module(name) {
  driver_inst = new vt_driver("driver", rd);
  driver_inst->clk(*driver_clk_sig);
  driver_inst->rst(rst_sig);
  dut_inst = new vt_top("dut", rd);
  dut_inst->rst(rst_sig);
  this->design_dut_inst = dut_inst;
  if (vt_scenario(rd->rad_id).watch) vt_log("{\"e\":\"design\",\"p\":\"r" + std::to_string(rd->rad_id) + "\",\"d\":\"vt\",\"t\":0}");
}

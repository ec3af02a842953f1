#pragma once
#include <vt_driver.hpp>
#include <vt_top.hpp>
#include <design_system.hpp>
class vt_system : public RADSimDesignSystem {
public:
  sc_signal<bool> rst_sig;
  vt_driver *driver_inst;
  vt_top *dut_inst;
  vt_system(const sc_module_name &name, sc_clock *driver_clk_sig, RADSimDesignContext *radsim_design);
};

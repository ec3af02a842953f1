#pragma once
#include <design_context.hpp>
#include <vt_mod.hpp>
#include <systemc.h>
class vt_driver : public sc_module {
public:
  RADSimDesignContext *rd;
  sc_in<bool> clk;
  sc_out<bool> rst;
  vt_driver(const sc_module_name &name, RADSimDesignContext *rd);
  void run();
  void watch();
  SC_HAS_PROCESS(vt_driver);
};

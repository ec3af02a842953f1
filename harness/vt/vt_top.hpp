#pragma once
#include <radsim_config.hpp>
#include <design_top.hpp>
#include <vt_mod.hpp>
class vt_top : public RADSimDesignTop {
public:
  sc_in<bool> rst;
  RADSimDesignContext *radsim_design;
  std::vector<vt_mod *> mods;
  vt_top(const sc_module_name &name, RADSimDesignContext *radsim_design);
};

#include <vt_top.hpp>
vt_top::vt_top(const sc_module_name &name, RADSimDesignContext *rd) : RADSimDesignTop(rd) {
  radsim_design = rd;
  const VtScn &s = vt_scenario(rd->rad_id);
  for (auto &m : s.mods) {
    vt_mod *v = new vt_mod(m.name.c_str(), rd, m);
    v->rst(rst);
    mods.push_back(v);
  }
  this->connectPortalReset(&rst);
  rd->BuildDesignContext(s.place, s.clks);
  rd->CreateSystemNoCs(rst);
  rd->ConnectModulesToNoC();
  for (auto &m : s.mods)
    for (auto &p : m.ports) {
      std::string n = m.name + "." + p.name;
      auto pl = rd->GetPortPlacement(n);
      char b[17] = "0";
      if (p.mm) snprintf(b, sizeof b, "%016llx", (unsigned long long)rd->GetPortBaseAddress(n));
      vt_log("{\"e\":\"place\",\"p\":\"r" + std::to_string(rd->rad_id) + "." + n + "\",\"noc\":" + std::to_string(std::get<0>(pl)) +
             ",\"node\":" + std::to_string(rd->GetPortDestinationID(n)) + ",\"itf\":" + std::to_string(rd->GetPortInterfaceID(n)) +
             ",\"base\":\"" + b + "\"}");
    }
}

#include "mlp_driver.hpp"
#include <sstream>

mlp_driver::mlp_driver(const sc_module_name& name, RADSimDesignContext* d) : sc_module(name), radsim_design(d) {
  std::string r = std::to_string(d->rad_id);
  log.open("accel" + r + ".ndjson");
  std::ifstream f("accel" + r + ".txt");
  f >> expect >> extra >> idle_max >> pin >> pout >> lcg;
  hold = 0;
  f >> hold;
  std::string root = radsim_config.GetStringKnobPerRad("radsim_user_design_root_dir", d->rad_id);
  std::ifstream c(root + "/compiler/layer_mvm_config");
  unsigned layers;
  c >> layers >> n;
  init_vector<sc_in<bool>>::init_sc_vector(dispatcher_fifo_rdy, n);
  init_vector<sc_out<bool>>::init_sc_vector(dispatcher_fifo_wen, n);
  init_vector<sc_out<data_vector<VT_T>>>::init_sc_vector(dispatcher_fifo_wdata, n);
  inputs.resize(n);
  sent.resize(n);
  for (unsigned i = 0; i < n; i++) {
    std::ifstream in(root + "/compiler/input_mifs/inputs_mvm" + std::to_string(i) + ".mif");
    std::string line;
    while (std::getline(in, line)) {
      std::stringstream s(line);
      std::vector<int> v(LANES, 0);
      for (unsigned k = 0; k < LANES; k++) s >> v[k];
      inputs[i].push_back(v);
    }
  }
  cyc = last = 0;
  got = 0;
  SC_METHOD(assign);
  sensitive << collector_fifo_rdy << allow;
  SC_CTHREAD(source, clk.pos());
  SC_CTHREAD(sink, clk.pos());
}

void mlp_driver::source() {
  rst.write(true);
  for (unsigned i = 0; i < n; i++) dispatcher_fifo_wen[i].write(false);
  wait();
  rst.write(false);
  wait();
  while (true) {
    for (unsigned i = 0; i < n; i++) {
      if (dispatcher_fifo_rdy[i].read() && sent[i] < inputs[i].size() && chance() < pin) {
        data_vector<VT_T> v(inputs[i][sent[i]]);
        dispatcher_fifo_wen[i].write(true);
        dispatcher_fifo_wdata[i].write(v);
        log << "{\"e\":\"in\",\"d\":" << i + 1 << ",\"v\":[";
        for (unsigned k = 0; k < LANES; k++) log << (k ? "," : "") << inputs[i][sent[i]][k];
        log << "]}" << std::endl;
        sent[i]++;
        last = cyc;
      } else {
        dispatcher_fifo_wen[i].write(false);
      }
    }
    wait();
  }
}

void mlp_driver::sink() {
  bool over = false;
  while (!over) {
    if (collector_fifo_ren.read() && !rst.read()) {
      data_vector<VT_T> v = collector_fifo_rdata.read();
      if (v.size() > 0) {
        log << "{\"e\":\"out\",\"v\":[";
        for (unsigned k = 0; k < v.size(); k++) log << (k ? "," : "") << v[k].to_int();
        log << "]}" << std::endl;
        got++;
        last = cyc;
      }
    }
    bool all = true;
    for (unsigned i = 0; i < n; i++) all = all && sent[i] == inputs[i].size();
    cyc++;
    if (all && got >= expect && cyc - last > extra) {
      log << "{\"e\":\"end\"}" << std::endl;
      over = true;
    } else if (cyc - last > idle_max && cyc > hold + idle_max) {
      log << "{\"e\":\"stuck\"}" << std::endl;
      over = true;
    }
    allow.write(cyc > hold && chance() < pout);
    if (!over) wait();
  }
  radsim_design->set_rad_done();
}

void mlp_driver::assign() { collector_fifo_ren.write(collector_fifo_rdy.read() && allow.read()); }

#include "mlp_driver.hpp"

mlp_driver::mlp_driver(const sc_module_name& name, RADSimDesignContext* d) : sc_module(name), radsim_design(d) {
  std::string r = std::to_string(d->rad_id);
  log.open("accel" + r + ".ndjson");
  std::ifstream f("accel" + r + ".txt");
  f >> expect >> extra >> idle_max >> pload >> pin >> pout >> lcg >> settle >> n;
  std::string root = radsim_config.GetStringKnobPerRad("radsim_user_design_root_dir", d->rad_id) + "/compiler/";
  init_vector<sc_in<bool>>::init_sc_vector(dispatcher_fifo_rdy, n);
  init_vector<sc_out<bool>>::init_sc_vector(dispatcher_fifo_wen, n);
  init_vector<sc_out<data_vector<sc_int<IPRECISION>>>>::init_sc_vector(dispatcher_fifo_wdata, n);
  inputs.resize(n);
  sent.resize(n);
  std::string line;
  std::ifstream wf(root + "weights.txt");
  while (std::getline(wf, line)) {
    std::stringstream s(line);
    weight_t w;
    s >> w.layer >> w.mvm >> w.rf >> w.addr;
    w.v.assign(LANES, 0);
    for (unsigned k = 0; k < LANES; k++) s >> w.v[k];
    ws.push_back(w);
  }
  std::ifstream jf(root + "insts.txt");
  while (std::getline(jf, line)) {
    std::stringstream s(line);
    inst_t i;
    unsigned v[8];
    s >> i.layer >> i.mvm;
    for (unsigned k = 0; k < 8; k++) s >> v[k];
    i.i.release_op = v[0];
    i.i.release_dest = v[1];
    i.i.rf_raddr = v[2];
    i.i.accum_raddr = v[3];
    i.i.last = v[4];
    i.i.release = v[5];
    i.i.accum_en = v[6];
    i.i.reduce = v[7];
    is.push_back(i);
  }
  for (unsigned i = 0; i < n; i++) {
    std::ifstream in(root + "inputs" + std::to_string(i) + ".txt");
    while (std::getline(in, line)) {
      std::stringstream s(line);
      std::vector<int> v(LANES, 0);
      for (unsigned k = 0; k < LANES; k++) s >> v[k];
      inputs[i].push_back(v);
    }
  }
  cyc = last = 0;
  got = 0;
  SC_METHOD(assign);
  sensitive << collector_fifo_rdy << allow;
  SC_CTHREAD(source, clk.pos());
  SC_CTHREAD(sink, clk.pos());
}

void mlp_driver::source() {
  size_t wk = 0, ik = 0;
  rst.write(true);
  for (unsigned i = 0; i < n; i++) dispatcher_fifo_wen[i].write(false);
  weight_loader_weight_fifo_wen.write(false);
  weight_loader_rf_id_fifo_wen.write(false);
  weight_loader_rf_addr_fifo_wen.write(false);
  weight_loader_layer_id_fifo_wen.write(false);
  weight_loader_mvm_id_fifo_wen.write(false);
  inst_loader_inst_fifo_wen.write(false);
  inst_loader_layer_id_fifo_wen.write(false);
  inst_loader_mvm_id_fifo_wen.write(false);
  wait();
  rst.write(false);
  wait();
  bool more = true;
  while (more) {
    bool a = load_weight(wk), b = load_inst(ik);
    more = a || b;
    if (more) last = cyc;
    wait();
  }
  for (long k = 0; k < settle; k++) {
    last = cyc;
    wait();
  }
  while (true) {
    for (unsigned i = 0; i < n; i++) {
      if (dispatcher_fifo_rdy[i].read() && sent[i] < inputs[i].size() && chance() < pin) {
        dispatcher_fifo_wen[i].write(true);
        dispatcher_fifo_wdata[i].write(data_vector<sc_int<IPRECISION>>(inputs[i][sent[i]]));
        log << "{\"e\":\"in\",\"d\":" << i + 1 << ",\"v\":[";
        for (unsigned k = 0; k < LANES; k++) log << (k ? "," : "") << inputs[i][sent[i]][k];
        log << "]}" << std::endl;
        sent[i]++;
        last = cyc;
      } else {
        dispatcher_fifo_wen[i].write(false);
      }
    }
    wait();
  }
}

void mlp_driver::sink() {
  bool over = false;
  while (!over) {
    if (collector_fifo_ren.read() && !rst.read()) {
      data_vector<sc_int<IPRECISION>> v = collector_fifo_rdata.read();
      log << "{\"e\":\"out\",\"v\":[";
      for (unsigned k = 0; k < v.size(); k++) log << (k ? "," : "") << v[k].to_int();
      log << "]}" << std::endl;
      got++;
      last = cyc;
    }
    bool all = true;
    for (unsigned i = 0; i < n; i++) all = all && sent[i] == inputs[i].size();
    cyc++;
    if (all && got >= expect && cyc - last > extra) {
      log << "{\"e\":\"end\"}" << std::endl;
      over = true;
    } else if (cyc - last > idle_max) {
      log << "{\"e\":\"stuck\"}" << std::endl;
      over = true;
    }
    allow.write(chance() < pout);
    if (!over) wait();
  }
  radsim_design->set_rad_done();
}

void mlp_driver::assign() { collector_fifo_ren.write(collector_fifo_rdy.read() && allow.read()); }

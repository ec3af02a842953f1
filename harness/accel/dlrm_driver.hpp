// Test bench for the recommendation-model example: takes the place of its own driver
// (same class name and ports), hands in the lookups at the pace of a script, reads
// results at its own pace and records both.
#pragma once
#include <systemc.h>
#include <fstream>
#include <sstream>
#include <vector>
#include <embedding_lookup.hpp>
#include <sim_utils.hpp>
#include "radsim_config.hpp"

class dlrm_driver : public sc_module {
  RADSimDesignContext* radsim_design;
  std::ofstream log;
  std::vector<data_vector<uint64_t>> idx, base;
  std::vector<data_vector<unsigned int>> chan;
  int role, expect, extra, idle_max, pin, pout;
  unsigned long lcg;
  long cyc, last;
  int got;
  bool sent_all;
  sc_signal<bool> allow;
  int chance() {
    lcg = lcg * 6364136223846793005UL + 1442695040888963407UL;
    return (int)((lcg >> 33) % 100);
  }
  template <class T>
  static data_vector<T> row(const std::string& line, unsigned n) {
    std::stringstream s(line);
    data_vector<T> v(n);
    for (unsigned i = 0; i < n; i++) {
      T x;
      s >> x;
      v[i] = x;
    }
    return v;
  }

 public:
  sc_in<bool> clk;
  sc_out<bool> rst;
  sc_out<data_vector<uint64_t>> lookup_indecies_data;
  sc_out<data_vector<unsigned int>> lookup_indecies_target_channels;
  sc_out<data_vector<uint64_t>> lookup_indecies_base_addresses;
  sc_out<bool> lookup_indecies_valid;
  sc_in<bool> lookup_indecies_ready;
  sc_in<unsigned int> received_responses;
  sc_in<bool> collector_fifo_rdy;
  sc_out<bool> collector_fifo_ren;
  sc_in<data_vector<int16_t>> collector_fifo_rdata;

  dlrm_driver(const sc_module_name& name, RADSimDesignContext* d) : sc_module(name), radsim_design(d) {
    std::string r = std::to_string(d->rad_id);
    log.open("accel" + r + ".ndjson");
    std::ifstream f("accel" + r + ".txt");
    // role: 1 hands in lookups, 2 reads results, 3 both
    f >> role >> expect >> extra >> idle_max >> pin >> pout >> lcg;
    std::ifstream in(radsim_config.GetStringKnobPerRad("radsim_user_design_root_dir", d->rad_id) + "/compiler/embedding_indecies.in");
    std::string line;
    std::getline(in, line);
    std::stringstream h(line);
    unsigned n = 0;
    h >> n;
    for (int k = 0; std::getline(in, line); k++) {
      if (k % 3 == 0) idx.push_back(row<uint64_t>(line, n));
      if (k % 3 == 1) chan.push_back(row<unsigned>(line, n));
      if (k % 3 == 2) base.push_back(row<uint64_t>(line, n));
    }
    cyc = last = 0;
    got = 0;
    sent_all = !(role & 1);
    SC_METHOD(assign);
    sensitive << collector_fifo_rdy << allow;
    SC_CTHREAD(source, clk.pos());
    SC_CTHREAD(sink, clk.pos());
  }

  void source() {
    rst.write(true);
    lookup_indecies_valid.write(false);
    wait();
    rst.write(false);
    wait();
    for (size_t i = 0; (role & 1) && i < idx.size(); i++) {
      while (chance() >= pin) wait();
      lookup_indecies_data.write(idx[i]);
      lookup_indecies_target_channels.write(chan[i]);
      lookup_indecies_base_addresses.write(base[i]);
      lookup_indecies_valid.write(true);
      do wait();
      while (!lookup_indecies_ready.read());
      lookup_indecies_valid.write(false);
      log << "{\"e\":\"in\",\"t\":" << cyc << ",\"a\":[";
      for (size_t k = 0; k < idx[i].size(); k++)
        log << (k ? "," : "") << "[" << chan[i][k] + 1 << ",\"" << idx[i][k] + base[i][k] << "\"]";
      log << "]}" << std::endl;
      last = cyc;
    }
    sent_all = true;
    wait();
  }

  void sink() {
    bool over = role == 1 || role == 0;
    while (!over) {
      if (collector_fifo_ren.read() && !rst.read()) {
        data_vector<int16_t> v = collector_fifo_rdata.read();
        if (v.size() > 0) {
          log << "{\"e\":\"out\",\"t\":" << cyc << ",\"v\":[";
          for (unsigned k = 0; k < v.size(); k++) log << (k ? "," : "") << v[k];
          log << "]}" << std::endl;
          got++;
          last = cyc;
        }
      }
      cyc++;
      if (sent_all && got >= expect && cyc - last > extra) {
        log << "{\"e\":\"end\",\"t\":" << cyc << "}" << std::endl;
        over = true;
      } else if (cyc - last > idle_max) {
        log << "{\"e\":\"stuck\",\"t\":" << cyc << "}" << std::endl;
        over = true;
      }
      allow.write(chance() < pout);
      if (!over) wait();
    }
    if (role != 1) radsim_design->set_rad_done();
    while (role == 1) {  // the device is done when it says so
      cyc++;
      wait();
    }
  }

  void assign() { collector_fifo_ren.write(collector_fifo_rdy.read() && allow.read()); }
  SC_HAS_PROCESS(dlrm_driver);
};

// Test bench for the 8-bit multi-layer perceptron example: takes the place of its own
// driver (same class name and ports).  Loads weights and instructions in the order of
// a script, then feeds inputs and reads results at its own pace and records both.
#pragma once
#include <systemc.h>
#include <fstream>
#include <sstream>
#include <vector>
#include "sim_utils.hpp"
#include "instructions.hpp"
#include "radsim_config.hpp"
#include <design_context.hpp>

class mlp_driver : public sc_module {
  struct weight_t { unsigned layer, mvm, rf, addr; std::vector<int> v; };
  struct inst_t { unsigned layer, mvm; mvm_inst i; };
  std::ofstream log;
  unsigned n;
  std::vector<weight_t> ws;
  std::vector<inst_t> is;
  std::vector<std::vector<std::vector<int>>> inputs;
  std::vector<size_t> sent;
  long expect, extra, idle_max, pload, pin, pout, settle, cyc, last;
  unsigned long lcg;
  long got;
  sc_signal<bool> allow;
  int chance() {
    lcg = lcg * 6364136223846793005UL + 1442695040888963407UL;
    return (int)((lcg >> 33) % 100);
  }
  bool load_weight(size_t& k) {
    bool go = k < ws.size() && weight_loader_weight_fifo_rdy.read() && chance() < pload;
    weight_loader_weight_fifo_wen.write(go);
    weight_loader_rf_id_fifo_wen.write(go);
    weight_loader_rf_addr_fifo_wen.write(go);
    weight_loader_layer_id_fifo_wen.write(go);
    weight_loader_mvm_id_fifo_wen.write(go);
    if (go) {
      weight_loader_weight_fifo_wdata.write(data_vector<sc_int<IPRECISION>>(ws[k].v));
      weight_loader_rf_id_fifo_wdata.write(ws[k].rf);
      weight_loader_rf_addr_fifo_wdata.write(ws[k].addr);
      weight_loader_layer_id_fifo_wdata.write(ws[k].layer);
      weight_loader_mvm_id_fifo_wdata.write(ws[k].mvm);
      k++;
    }
    return k < ws.size() || go;
  }
  bool load_inst(size_t& k) {
    bool go = k < is.size() && inst_loader_inst_fifo_rdy.read() && chance() < pload;
    inst_loader_inst_fifo_wen.write(go);
    inst_loader_layer_id_fifo_wen.write(go);
    inst_loader_mvm_id_fifo_wen.write(go);
    if (go) {
      inst_loader_inst_fifo_wdata.write(is[k].i);
      inst_loader_layer_id_fifo_wdata.write(is[k].layer);
      inst_loader_mvm_id_fifo_wdata.write(is[k].mvm);
      k++;
    }
    return k < is.size() || go;
  }

 public:
  sc_in<bool> clk;
  sc_out<bool> rst;
  sc_in<bool> weight_loader_weight_fifo_rdy;
  sc_out<bool> weight_loader_weight_fifo_wen;
  sc_out<data_vector<sc_int<IPRECISION>>> weight_loader_weight_fifo_wdata;
  sc_in<bool> weight_loader_rf_id_fifo_rdy;
  sc_out<bool> weight_loader_rf_id_fifo_wen;
  sc_out<uint8_t> weight_loader_rf_id_fifo_wdata;
  sc_in<bool> weight_loader_rf_addr_fifo_rdy;
  sc_out<bool> weight_loader_rf_addr_fifo_wen;
  sc_out<sc_uint<RF_ADDRW>> weight_loader_rf_addr_fifo_wdata;
  sc_in<bool> weight_loader_layer_id_fifo_rdy;
  sc_out<bool> weight_loader_layer_id_fifo_wen;
  sc_out<uint8_t> weight_loader_layer_id_fifo_wdata;
  sc_in<bool> weight_loader_mvm_id_fifo_rdy;
  sc_out<bool> weight_loader_mvm_id_fifo_wen;
  sc_out<uint8_t> weight_loader_mvm_id_fifo_wdata;
  sc_in<bool> inst_loader_inst_fifo_rdy;
  sc_out<bool> inst_loader_inst_fifo_wen;
  sc_out<mvm_inst> inst_loader_inst_fifo_wdata;
  sc_in<bool> inst_loader_layer_id_fifo_rdy;
  sc_out<bool> inst_loader_layer_id_fifo_wen;
  sc_out<uint8_t> inst_loader_layer_id_fifo_wdata;
  sc_in<bool> inst_loader_mvm_id_fifo_rdy;
  sc_out<bool> inst_loader_mvm_id_fifo_wen;
  sc_out<uint8_t> inst_loader_mvm_id_fifo_wdata;
  sc_vector<sc_in<bool>> dispatcher_fifo_rdy;
  sc_vector<sc_out<bool>> dispatcher_fifo_wen;
  sc_vector<sc_out<data_vector<sc_int<IPRECISION>>>> dispatcher_fifo_wdata;
  sc_in<bool> collector_fifo_rdy;
  sc_out<bool> collector_fifo_ren;
  sc_in<data_vector<sc_int<IPRECISION>>> collector_fifo_rdata;
  RADSimDesignContext* radsim_design;

  mlp_driver(const sc_module_name& name, RADSimDesignContext* d);
  void source();
  void sink();
  void assign();
  SC_HAS_PROCESS(mlp_driver);
};

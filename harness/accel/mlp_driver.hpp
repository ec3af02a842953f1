// Test bench for the multi-layer perceptron example: takes the place of its own
// driver (same class name and ports), feeds the input files at the pace of a
// script, reads results at its own pace and records both.
#pragma once
#include <systemc.h>
#include <fstream>
#include <vector>
#include "mvm.hpp"
#include "sim_utils.hpp"
#include "instructions.hpp"
#include "radsim_config.hpp"
#ifndef VT_T
#define VT_T sc_int<32>
#endif

class mlp_driver : public sc_module {
  RADSimDesignContext* radsim_design;
  std::ofstream log;
  unsigned n;
  std::vector<std::vector<std::vector<int>>> inputs;
  std::vector<size_t> sent;
  int expect, extra, idle_max, pin, pout;
  unsigned long lcg;
  long cyc, last, hold;
  int got;
  sc_signal<bool> allow;
  int chance() {
    lcg = lcg * 6364136223846793005UL + 1442695040888963407UL;
    return (int)((lcg >> 33) % 100);
  }

 public:
  sc_in<bool> clk;
  sc_out<bool> rst;
  sc_vector<sc_in<bool>> dispatcher_fifo_rdy;
  sc_vector<sc_out<bool>> dispatcher_fifo_wen;
  sc_vector<sc_out<data_vector<VT_T>>> dispatcher_fifo_wdata;
  sc_in<bool> collector_fifo_rdy;
  sc_out<bool> collector_fifo_ren;
  sc_in<data_vector<VT_T>> collector_fifo_rdata;

  mlp_driver(const sc_module_name& name, RADSimDesignContext* d);
  void source();
  void sink();
  void assign();
  SC_HAS_PROCESS(mlp_driver);
};

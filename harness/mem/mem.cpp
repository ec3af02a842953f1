// Drives the memory controller by itself through its AXI-MM ports and logs
// every accepted beat; or ("map") asks it where addresses are kept.
// mem.txt: root dir, config name, queue size, period, init file or -, cycles, then
//   o CH KIND gap after addr len user last data     KIND aw, w, ar; after: write responses the channel must have had
//   p CH KIND pattern     ready pattern of b or r, one character per cycle, repeated
//   x CH 0                (map) ask for every word of a channel
//   a CH hexaddr          (map) ask for an address
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <mem_controller.hpp>
#include <radsim_cluster.hpp>
#include <systemc.h>
#include <unistd.h>
#include "configuration.h"

RADSimConfig radsim_config;
std::ostream *gWatchOut;
SimLog sim_log;
SimTraceRecording sim_trace_probe;

template <int W> static void unhex(sc_bv<W> &v, const std::string &h) {
  v = 0;
  int bit = 0;
  for (size_t i = h.size(); i-- > 0;) {
    int n = h[i] <= '9' ? h[i] - '0' : h[i] - 'a' + 10;
    for (int b = 0; b < 4 && bit < W; b++, bit++) v[bit] = (n >> b) & 1;
  }
}
template <int W> static std::string hex(const sc_bv<W> &v) {
  std::string s;
  for (int i = 0; i < W; i += 4) {
    int n = 0;
    for (int b = 0; b < 4 && i + b < W; b++)
      if (v[i + b].to_bool()) n |= 1 << b;
    s.push_back("0123456789abcdef"[n]);
  }
  while (s.size() > 1 && s.back() == '0') s.pop_back();
  return std::string(s.rbegin(), s.rend());
}

struct Op { int gap; long after; std::string addr; int len; std::string user; int last; std::string data; };
struct Chan {
  std::vector<Op> q[3];
  size_t pos[3] = {0, 0, 0};
  int wait_[3] = {-1, -1, -1};
  bool off[3] = {false, false, false};
  long bs = 0;
  std::string rdy[2];
};

struct Bench : sc_module {
  int n, size;
  long cycles;
  sc_in<bool> clk;
  sc_out<bool> rst;
  sc_vector<aximm_master_port> tx;
  std::vector<Chan> c;
  FILE *f;
  SC_HAS_PROCESS(Bench);
  Bench(sc_module_name nm, int n_, int size_, long cyc) : sc_module(nm), n(n_), size(size_), cycles(cyc), clk("clk"), rst("rst") {
    tx.init(n);
    c.resize(n);
    SC_CTHREAD(run, clk.pos());
  }
  void run() {
    rst.write(true);
    for (int i = 0; i < n; i++) {
      tx[i].awvalid.write(false); tx[i].wvalid.write(false); tx[i].arvalid.write(false);
      tx[i].bready.write(false); tx[i].rready.write(false);
    }
    wait(3);
    rst.write(false);
    wait();
    for (long t = 1; t <= cycles; t++) {
      for (int i = 0; i < n; i++) {
        Chan &h = c[i];
        aximm_master_port &p = tx[i];
        bool v[3] = {p.awvalid.read(), p.wvalid.read(), p.arvalid.read()};
        bool r[3] = {p.awready.read(), p.wready.read(), p.arready.read()};
        for (int k = 0; k < 3; k++)
          if (v[k] && r[k]) {
            Op &o = h.q[k][h.pos[k]++];
            h.off[k] = false;
            h.wait_[k] = -1;
            if (k == 1) fprintf(f, "%ld W %d %s %s %d\n", t, i, o.data.c_str(), o.user.c_str(), o.last);
            else fprintf(f, "%ld %s %d %s %d %s\n", t, k ? "AR" : "AW", i, o.addr.c_str(), o.len, o.user.c_str());
          }
        if (p.bvalid.read() && p.bready.read()) {
          h.bs++;
          fprintf(f, "%ld B %d %s\n", t, i, hex(p.buser.read()).c_str());
        }
        if (p.rvalid.read() && p.rready.read())
          fprintf(f, "%ld R %d %s %s %d\n", t, i, hex(p.rdata.read()).c_str(), hex(p.ruser.read()).c_str(), p.rlast.read() ? 1 : 0);
        p.bready.write(h.rdy[0].empty() || h.rdy[0][t % h.rdy[0].size()] == '1');
        p.rready.write(h.rdy[1].empty() || h.rdy[1][t % h.rdy[1].size()] == '1');
        for (int k = 0; k < 3; k++) {
          if (!h.off[k] && h.pos[k] < h.q[k].size()) {
            Op &o = h.q[k][h.pos[k]];
            if (h.wait_[k] < 0) h.wait_[k] = o.gap;
            if (h.bs >= o.after) {
              if (h.wait_[k] > 0) h.wait_[k]--;
              else h.off[k] = true;
            }
          }
        }
        p.awvalid.write(h.off[0]); p.wvalid.write(h.off[1]); p.arvalid.write(h.off[2]);
        for (int k = 0; k < 3; k++)
          if (h.off[k]) {
            Op &o = h.q[k][h.pos[k]];
            sc_bv<AXI4_USERW> u; unhex(u, o.user);
            sc_bv<AXI4_ADDRW> a; unhex(a, o.addr);
            if (k == 0) { p.awaddr.write(a); p.awlen.write(o.len % 1000 - 1); p.awsize.write(size + o.len / 1000); p.awburst.write(1); p.awuser.write(u); }
            else if (k == 2) { p.araddr.write(a); p.arlen.write(o.len % 1000 - 1); p.arsize.write(size + o.len / 1000); p.arburst.write(1); p.aruser.write(u); }
            else { sc_bv<AXI4_MAX_DATAW> d; unhex(d, o.data); p.wdata.write(d); p.wuser.write(u); p.wlast.write(o.last); }
          }
      }
      wait();
    }
    long un = 0;
    for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) un += c[i].pos[k] < c[i].q[k].size();
    fprintf(f, "%ld E %ld\n", cycles, un);
    fflush(f);
    sc_stop();
  }
};

int sc_main(int argc, char **argv) {
  std::ifstream in("mem.txt");
  std::string root, name, init;
  int qs;
  double period;
  long cycles;
  in >> root >> name >> qs >> period >> init >> cycles;
  if (init == "-") init = "";
  gWatchOut = &std::cout;
  radsim_config.ResizeAll(1);
  radsim_config.AddStringKnobShared("radsim_root_dir", root);
  std::vector<std::string> cf(1, name);
  std::vector<double> pd(1, period), one(1, 1.0);
  std::vector<int> q(1, qs), nodes(1, 4);
  radsim_config.AddStringVectorKnobPerRad("dram_config_files", cf, 0);
  radsim_config.AddDoubleVectorKnobPerRad("dram_clk_periods", pd, 0);
  radsim_config.AddIntVectorKnobPerRad("dram_queue_sizes", q, 0);
  radsim_config.AddDoubleVectorKnobPerRad("noc_clk_period", one, 0);
  radsim_config.AddDoubleVectorKnobPerRad("noc_adapters_clk_period", one, 0);
  radsim_config.AddDoubleVectorKnobPerRad("design_clk_periods", pd, 0);
  radsim_config.AddIntKnobPerRad("noc_num_nocs", 1, 0);
  radsim_config.AddIntVectorKnobPerRad("noc_num_nodes", nodes, 0);
  RADSimDesignContext ctx(0);
  mem_controller ctl("mem", 0, &ctx, init);
  FILE *f = fopen("mem.log", "w");
  unsigned n = ctl.GetNumChannels();
  fprintf(f, "0 I %u %u %u\n", n, ctl.GetAddressableWordSize(), ctl.GetMemCapacity());
  std::string k;
  int sz = 0;
  while ((1u << sz) < ctl.GetAddressableWordSize()) sz++;
  sc_clock clk("clk", period, SC_NS), mclk("mclk", period / 2, SC_NS);
  sc_signal<bool> rst("rst");
  Bench b("bench", n, sz, cycles);
  b.f = f;
  b.clk(clk); b.rst(rst);
  ctl.clk(clk); ctl.mem_clk(mclk); ctl.rst(rst);
  sc_vector<aximm_signal> sig;
  sig.init(n);
  for (unsigned i = 0; i < n; i++) sig[i].Connect(b.tx[i], ctl.mem_channels[i]);
  dramsim3::Config *dc = nullptr;
  while (in >> k) {
    int ch;
    in >> ch;
    if (k == "o") {
      std::string kind;
      Op o;
      in >> kind >> o.gap >> o.after >> o.addr >> o.len >> o.user >> o.last >> o.data;
      b.c[ch].q[kind == "aw" ? 0 : kind == "w" ? 1 : 2].push_back(o);
    } else if (k == "p") {
      std::string kind, pat;
      in >> kind >> pat;
      b.c[ch].rdy[kind == "b" ? 0 : 1] = pat;
    } else {
      std::string a;
      in >> a;
      if (!dc) dc = new dramsim3::Config(root + "/sim/dram/DRAMsim3/configs/" + name + ".ini", ".", 0);
      if (k == "x") {
        // every word of the channel: locations reached, out of range, in a wrong channel; first clashes
        uint64_t words = (uint64_t)dc->ranks * dc->bankgroups * dc->banks_per_group * dc->rows * (dc->columns / dc->BL), bytes = ctl.GetAddressableWordSize();
        std::vector<uint64_t> who(words, ~0ull);
        uint64_t got = 0, out = 0, off = 0;
        std::vector<uint64_t> show;
        for (uint64_t w = 0; w < words; w++) {
          uint64_t t = ctl.AddressMapping(w * bytes, ch);
          dramsim3::Address d = dc->AddressMapping(t);
          bool r = d.rank >= 0 && d.rank < dc->ranks && d.bankgroup >= 0 && d.bankgroup < dc->bankgroups && d.bank >= 0 && d.bank < dc->banks_per_group && d.row >= 0 && d.row < dc->rows &&
                   d.column >= 0 && d.column < dc->columns / dc->BL;
          if (!r) out++;
          if (d.channel != ch || (int)ctl.ChannelFromAddr(t) != ch) off++;
          if ((!r || d.channel != ch || (int)ctl.ChannelFromAddr(t) != ch) && show.size() < 4) show.push_back(w);
          if (!r) continue;
          uint64_t l = (((((uint64_t)d.rank * dc->bankgroups + d.bankgroup) * dc->banks_per_group + d.bank) * dc->rows + d.row) * (dc->columns / dc->BL)) + d.column;
          if (who[l] == ~0ull) { who[l] = w; got++; }
          else if (show.size() < 4) { show.push_back(who[l]); show.push_back(w); }
        }
        fprintf(f, "0 X %d %llu %llu %llu %llu\n", ch, (unsigned long long)words, (unsigned long long)got, (unsigned long long)out, (unsigned long long)off);
        for (uint64_t w : show) {
          uint64_t t = ctl.AddressMapping(w * bytes, ch);
          dramsim3::Address d = dc->AddressMapping(t);
          fprintf(f, "0 M %d %llx %llx %u %d %d %d %d %d %d\n", ch, (unsigned long long)(w * bytes), (unsigned long long)t, ctl.ChannelFromAddr(t), d.channel, d.rank, d.bankgroup, d.bank, d.row, d.column);
        }
        continue;
      }
      uint64_t t = ctl.AddressMapping(strtoull(a.c_str(), nullptr, 16), ch);
      dramsim3::Address d = dc->AddressMapping(t);
      fprintf(f, "0 M %d %s %llx %u %d %d %d %d %d %d\n", ch, a.c_str(), (unsigned long long)t, ctl.ChannelFromAddr(t), d.channel, d.rank, d.bankgroup, d.bank, d.row, d.column);
    }
  }
  if (dc) fprintf(f, "0 S %d %d %d %d %d %d\n", dc->channels, dc->ranks, dc->bankgroups, dc->banks_per_group, dc->rows, dc->columns / dc->BL);
  if (cycles > 0) sc_start();
  fclose(f);
  fflush(stdout);
  _exit(0);
}

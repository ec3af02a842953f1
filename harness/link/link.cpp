// Drives the inter-device link by itself: one process samples every port at
// each rising edge and logs what was accepted, shown, ready and reported lost.
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <radsim_cluster.hpp>
#include <radsim_inter_rad.hpp>
#include <systemc.h>
#include <unistd.h>

extern RADSimConfig radsim_config;

struct Beat { int gap, dst, node, last; std::string data, user; };

template <int W> static void unhex(sc_bv<W> &v, const std::string &h) {
  v = 0;
  int bit = 0;
  for (size_t i = h.size(); i-- > 0;) {
    int n = h[i] <= '9' ? h[i] - '0' : h[i] - 'a' + 10;
    for (int b = 0; b < 4 && bit < W; b++, bit++) v[bit] = (n >> b) & 1;
  }
}
template <int W> static std::string hex(const sc_bv<W> &v) {
  std::string s;
  for (int i = 0; i < W; i += 4) {
    int n = 0;
    for (int b = 0; b < 4 && i + b < W; b++)
      if (v[i + b].to_bool()) n |= 1 << b;
    s.push_back("0123456789abcdef"[n]);
  }
  while (s.size() > 1 && s.back() == '0') s.pop_back();
  return std::string(s.rbegin(), s.rend());
}

// Whatever the link prints: lines about lost packets and the last number on them
struct Count : std::streambuf {
  std::string cur;
  long lines = 0, last = -1;
  int overflow(int c) override {
    if (c == '\n') {
      std::string l;
      for (char ch : cur) l.push_back(tolower(ch));
      if (l.find("drop") != std::string::npos) {
        lines++;
        size_t e = cur.find_last_of("0123456789");
        if (e != std::string::npos) {
          size_t b = e;
          while (b > 0 && isdigit(cur[b - 1])) b--;
          last = atol(cur.substr(b, e - b + 1).c_str());
        }
      }
      cur.clear();
    } else cur.push_back((char)c);
    return c;
  }
};

struct Bench : sc_module {
  int n, cycles;
  RADSimInterRad *link;
  std::vector<std::vector<Beat>> q;
  std::vector<axis_master_port *> in;   // towards the link
  std::vector<axis_slave_port *> out;   // from the link
  sc_in<bool> clk;
  Count *count;
  FILE *f;
  SC_HAS_PROCESS(Bench);
  Bench(sc_module_name nm, int n_, int cyc, RADSimInterRad *l) : sc_module(nm), n(n_), cycles(cyc), link(l) {
    q.resize(n);
    for (int i = 0; i < n; i++) {
      in.push_back(new axis_master_port());
      out.push_back(new axis_slave_port());
      l->all_axis_slave_signals[i]->Connect(*in[i], *l->all_axis_slave_ports[i]);
      l->all_axis_master_signals[i]->Connect(*l->all_axis_master_ports[i], *out[i]);
    }
    SC_THREAD(run);
  }
  void run() {
    std::vector<size_t> pos(n, 0);
    std::vector<int> wait_(n, 0);
    std::vector<bool> off(n, false);
    for (int i = 0; i < n; i++) {
      in[i]->Reset();
      out[i]->tready.write(true);
      if (!q[i].empty()) wait_[i] = q[i][0].gap;
    }
    long seen = 0;
    wait(clk.posedge_event());
    for (int c = 1; c <= cycles; c++) {
      std::string acc, rdy, o;
      for (int i = 0; i < n; i++) {
        bool v = in[i]->tvalid.read(), r = in[i]->tready.read();
        rdy += std::string(i ? "," : "") + (r ? "1" : "0");
        if (v && r) {
          sc_bv<AXIS_DESTW> d = in[i]->tdest.read();
          acc += std::string(acc.empty() ? "" : ",") + "{\"s\":" + std::to_string(i) + ",\"d\":" + std::to_string((int)DEST_RAD(d).to_uint()) + ",\"m\":\"" +
                 hex(in[i]->tdata.read()) + ":" + hex(in[i]->tuser.read()) + ":" + (in[i]->tlast.read() ? "1" : "0") + ":" + std::to_string((int)DEST_REMOTE_NODE(d).to_uint()) + "\"}";
          pos[i]++;
          off[i] = false;
          if (pos[i] < q[i].size()) wait_[i] = q[i][pos[i]].gap;
        }
        if (!off[i] && pos[i] < q[i].size()) {
          if (wait_[i] > 0) wait_[i]--;
          else off[i] = true;
        }
        in[i]->tvalid.write(off[i]);
        if (off[i]) {
          Beat &b = q[i][pos[i]];
          sc_bv<AXIS_MAX_DATAW> dv; unhex(dv, b.data);
          sc_bv<AXIS_USERW> uv; unhex(uv, b.user);
          sc_bv<AXIS_DESTW> d = 0;
          DEST_RAD(d) = b.dst;
          DEST_REMOTE_NODE(d) = b.node;
          in[i]->tdata.write(dv); in[i]->tuser.write(uv); in[i]->tlast.write(b.last); in[i]->tdest.write(d);
        }
        std::string m;
        if (out[i]->tvalid.read()) {
          sc_bv<AXIS_DESTW> d = out[i]->tdest.read();
          m = hex(out[i]->tdata.read()) + ":" + hex(out[i]->tuser.read()) + ":" + (out[i]->tlast.read() ? "1" : "0") + ":" + std::to_string((int)DEST_LOCAL_NODE(d).to_uint());
          if ((int)DEST_RAD(d).to_uint() != i) m += ":r" + std::to_string((int)DEST_RAD(d).to_uint());
        }
        o += std::string(i ? "," : "") + "\"" + m + "\"";
      }
      // losses at this edge have been reported half a cycle later
      wait(clk.negedge_event());
      long d = count->lines - seen;
      seen = count->lines;
      fprintf(f, "{\"e\":\"C\",\"a\":[%s],\"r\":[%s],\"o\":[%s],\"lost\":%ld}\n", acc.c_str(), rdy.c_str(), o.c_str(), d);
      wait(clk.posedge_event());
    }
    int unsent = 0;
    for (int i = 0; i < n; i++) unsent += pos[i] < q[i].size();
    fprintf(f, "{\"e\":\"end\",\"unsent\":%d,\"count\":%ld,\"last\":%ld}\n", unsent, count->lines, count->last);
    fflush(f);
    sc_stop();
  }
};

RADSimConfig radsim_config;
std::ostream *gWatchOut;
SimLog sim_log;
SimTraceRecording sim_trace_probe;

int sc_main(int argc, char **argv) {
  std::ifstream in("link.txt");
  int n, T, A, B, S, cycles, runs;
  in >> n >> T >> A >> B >> S >> cycles;
  radsim_config.AddIntKnobShared("inter_rad_latency_cycles", T);
  radsim_config.AddIntKnobShared("inter_rad_bw_accept_cycles", A);
  radsim_config.AddIntKnobShared("inter_rad_bw_total_cycles", B);
  radsim_config.AddIntKnobShared("inter_rad_fifo_num_slots", S);
  radsim_config.AddDoubleKnobShared("sim_driver_period", 5.0);
  gWatchOut = &std::cout;
  // the link only asks the cluster for the number of devices
  RADSimCluster *cl = new RADSimCluster(0);
  cl->num_rads = n;
  Count cnt;
  auto *old = std::cout.rdbuf(&cnt);
  sc_clock clk("clk", 5.0, SC_NS);
  RADSimInterRad link("link", &clk, cl);
  Bench b("bench", n, cycles, &link);
  b.clk(clk);
  b.count = &cnt;
  b.f = fopen("link.ndjson", "w");
  int src;
  Beat x;
  while (in >> src >> x.gap >> x.dst >> x.node >> x.data >> x.user >> x.last) b.q[src].push_back(x);
  cnt.lines = 0;
  sc_start();
  std::cout.rdbuf(old);
  fclose(b.f);
  _exit(0);
}

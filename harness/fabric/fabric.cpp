// Drives a BookSim network the way radsim_noc and the adapters do, and records
// what crosses every link.  Usage: fabric CONFIG SCRIPT OUT.ndjson
#include "booksim.hpp"
#include "booksim_config.hpp"
#include "buffer_state.hpp"
#include "globals.hpp"
#include "network.hpp"
#include "random_utils.hpp"
#include "routefunc.hpp"
#include <algorithm>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

std::ostream *gWatchOut = &std::cout;
extern "C" int sc_main(int, char **) { return 0; }
static int g_now = 0;
int GetSimTime() { return g_now; }

struct Packet { int id, src, dst, type, len, time; };
struct Node {
  std::map<int, std::deque<std::pair<int, int>>> q;        // type -> (packet, flit) to inject
  std::vector<int> order;                                  // round robin over types
  BufferState *bs = nullptr;
  std::map<int, std::deque<int>> rx;                       // per VC, flits not yet drained
  int period = 1, phase = 0, on = 1, until = 0;            // drains for `on` of each `period` cycles, always from `until` on
  int rr = 0;
};
static std::ofstream out;
static int g_events = 0;

static void walk(Network *net, tRoutingFunction rf, BookSimConfig &cfg, int types, int repeat, bool rnd);

int main(int argc, char **argv) {
  BookSimConfig cfg;
  cfg.ParseFile(argv[1]);
  InitializeRoutingMap(cfg);
  Network *net = Network::New(cfg, "noc_0");
  out.open(argv[3]);
  std::string rfn = cfg.GetStr("routing_function") + "_" + cfg.GetStr("topology");
  auto it = gRoutingFunctionMap.find(rfn);
  if (it == gRoutingFunctionMap.end()) { std::cerr << "no routing function " << rfn << "\n"; return 3; }
  tRoutingFunction rf = it->second;
  bool lookahead = !cfg.GetInt("routing_delay");
  bool wait_tail = cfg.GetInt("wait_for_tail_credit");
  int nodes = net->NumNodes();
  int vcs = cfg.GetInt("num_vcs");
  const char *tn[5] = {"read_request", "write_request", "write_data", "read_reply", "write_reply"};
  std::vector<int> begin(5, -1), end(5, -1);

  std::ifstream in(argv[2]);
  std::string line;
  std::vector<Packet> packets;
  std::vector<Node> node(nodes);
  int maxcyc = 100000, mode_walk = 0, repeat = 1, types = 1, watch_links = 1, rnd = 0;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string w;
    s >> w;
    if (w == "pk") { Packet p; s >> p.id >> p.src >> p.dst >> p.type >> p.len >> p.time; packets.push_back(p); }
    else if (w == "drain") { int n; s >> n; s >> node[n].on >> node[n].period >> node[n].phase >> node[n].until; }
    else if (w == "max") s >> maxcyc;
    else if (w == "types") s >> types;
    else if (w == "walk") { mode_walk = 1; s >> repeat >> rnd; }
    else if (w == "seed") { int x; s >> x; RandomSeed(x); }
    else if (w == "links") s >> watch_links;
  }
  for (int t = 0; t < types; t++) { begin[t] = cfg.GetInt(std::string(tn[t]) + "_begin_vc"); end[t] = cfg.GetInt(std::string(tn[t]) + "_end_vc"); }

  // wiring: links are numbered 1.. in the order inject, eject, internal
  struct Link { FlitChannel *f; CreditChannel *c; int kind, node; };
  std::vector<Link> links;
  for (int n = 0; n < nodes; n++) links.push_back({net->GetInject(n), net->GetInjectCred(n), 0, n});
  for (int n = 0; n < nodes; n++) links.push_back({net->GetEject(n), net->GetEjectCred(n), 1, n});
  for (size_t i = 0; i < net->GetChannels().size(); i++)
    links.push_back({net->GetChannels()[i], net->GetChannelsCred()[i], 2, -1});
  out << "{\"e\":\"net\",\"nodes\":" << nodes << ",\"routers\":" << net->NumRouters() << ",\"vcs\":" << vcs << ",\"buf\":" << cfg.GetInt("vc_buf_size")
      << ",\"links\":[";
  for (size_t i = 0; i < links.size(); i++) {
    const Router *a = links[i].f->GetSource(), *b = links[i].f->GetSink();
    out << (i ? "," : "") << "[" << (links[i].kind == 0 || !a ? -1 : a->GetID()) << "," << (links[i].kind == 1 || !b ? -1 : b->GetID()) << "," << links[i].node << ","
        << links[i].kind << "," << links[i].f->GetLatency() << "]";
  }
  out << "],\"types\":[";
  for (int t = 0; t < types; t++) out << (t ? "," : "") << "[" << begin[t] << "," << end[t] << "]";
  out << "]}\n";
  if (mode_walk) { walk(net, rf, cfg, types, repeat, rnd); out << "{\"e\":\"done\"}\n"; return 0; }

  for (int n = 0; n < nodes; n++) {
    node[n].bs = new BufferState(cfg, nullptr, "terminal_buf_state_" + std::to_string(n));
    int va = cfg.GetInt("vc_alloc_delay"), sa = cfg.GetInt("sw_alloc_delay");
    int rl = cfg.GetInt("routing_delay") + (cfg.GetInt("speculative") ? std::max(va, sa) : va + sa);
    node[n].bs->SetMinLatency(1 + net->GetInject(n)->GetLatency() + rl + net->GetInjectCred(n)->GetLatency());
  }
  std::stable_sort(packets.begin(), packets.end(), [](const Packet &a, const Packet &b) { return a.time < b.time; });
  size_t next = 0;
  std::map<int, Packet> pk;
  for (auto &p : packets) pk[p.id] = p;
  std::vector<std::deque<Packet>> backlog(nodes);
  std::vector<std::deque<std::pair<Packet, int>>> cur(nodes);   // one packet at a time per node, as the adapters
  int total = 0, got = 0;
  for (auto &p : packets) total += p.len;
  int flitno = 0;
  int idle = 0;
  std::map<int, int> rxorder;
  bool finished = false;
  for (int t = 0; t < maxcyc; t++) {
    // ---- nodes: receive, drain, inject (adapter processes run before or after the NoC; both happen once per cycle)
    std::vector<std::pair<int, int>> credits;
    for (int n = 0; n < nodes; n++) {
      Flit *f = net->ReadFlit(n);
      if (f) {
        int p = f->pid, i = f->id;
        long data = (long)f->data;
        out << "{\"e\":\"R\",\"t\":" << t << ",\"n\":" << n << ",\"f\":" << i << ",\"p\":" << p << ",\"v\":" << f->vc << ",\"h\":" << (f->head ? 1 : 0)
            << ",\"z\":" << (f->tail ? 1 : 0) << ",\"d\":" << data << ",\"hops\":" << f->hops << ",\"dst\":" << f->dest << ",\"ty\":" << (int)f->type
            << ",\"src\":" << f->src << ",\"itf\":" << f->dest_interface << ",\"rad\":" << f->dest_rad << ",\"rem\":" << f->dest_remote << "}\n";
        node[n].rx[f->vc].push_back(i);
        got++;
        f->Free();
      }
      bool drains = t >= node[n].until || ((t + node[n].phase) % node[n].period) < node[n].on;
      if (drains) {
        for (int k = 0; k < vcs; k++) {
          int v = (node[n].rr + k) % vcs;
          if (!node[n].rx[v].empty()) {
            node[n].rx[v].pop_front();
            credits.push_back({n, v});
            node[n].rr = v + 1;
            break;
          }
        }
      }
    }
    for (; next < packets.size() && packets[next].time <= t; next++) backlog[packets[next].src].push_back(packets[next]);
    for (int n = 0; n < nodes; n++) {
      if (cur[n].empty() && !backlog[n].empty()) {
        for (int i = 0; i < backlog[n].front().len; i++) cur[n].push_back({backlog[n].front(), i});
        backlog[n].pop_front();
      }
      if (!cur[n].empty()) {
        Packet &p = cur[n].front().first;
        int i = cur[n].front().second;
        int v = begin[p.type];
        bool head = i == 0, tail = i == p.len - 1;
        if (!node[n].bs->IsFullFor(v) && (!head || !wait_tail || node[n].bs->IsAvailableFor(v))) {
          Flit *f = Flit::New();
          f->id = ++flitno;
          f->pid = p.id; f->watch = false; f->subnetwork = 0; f->src = n; f->ctime = f->itime = t; f->cl = 0;
          f->head = head; f->tail = tail; f->type = (Flit::FlitType)p.type; f->dest = p.dst;
          f->dest_interface = p.id * 7 % 31; f->dest_rad = p.id % 3; f->dest_remote = p.id % 5;
          f->pri = 0; f->vc = v; f->data = (void *)(long)(p.id * 1000 + i);
          if (lookahead) {
            const FlitChannel *inject = net->GetInject(n);
            net->UseRoutingGlobals();
            rf(inject->GetSink(), f, inject->GetSinkPort(), &f->la_route_set, false);
          }
          out << "{\"e\":\"S\",\"t\":" << t << ",\"n\":" << n << ",\"f\":" << f->id << ",\"p\":" << p.id << ",\"i\":" << i << ",\"v\":" << v << "}\n";
          net->WriteFlit(f, n);
          if (head) node[n].bs->TakeBuffer(v);
          node[n].bs->SendingFlit(f);
          cur[n].pop_front();
        }
      }
      Credit *c = net->ReadCredit(n);
      if (c) { node[n].bs->ProcessCredit(c); c->Free(); }
    }
    // ---- the NoC, as radsim_noc::Tick
    g_now = t;
    net->UseRoutingGlobals();
    net->ReadInputs();
    for (auto &c : credits) {
      Credit *k = Credit::New();
      k->vc.insert(c.second);
      out << "{\"e\":\"D\",\"t\":" << t << ",\"n\":" << c.first << ",\"v\":" << c.second << "}\n";
      net->WriteCredit(k, c.first);
    }
    net->Evaluate();
    net->WriteOutputs();
    bool any = false;
    for (size_t i = 0; i < links.size(); i++) {
      Flit *f = links[i].f->Receive();
      if (f) {
        any = true;
        if (watch_links)
          out << "{\"e\":\"L\",\"t\":" << t << ",\"l\":" << i + 1 << ",\"f\":" << f->id << ",\"v\":" << f->vc << "}\n";
      }
      Credit *c = links[i].c->Receive();
      if (c) {
        any = true;
        if (watch_links && links[i].kind != 1) {
          for (int v : c->vc) out << "{\"e\":\"K\",\"t\":" << t << ",\"l\":" << i + 1 << ",\"v\":" << v << "}\n";
        }
      }
    }
    bool busy = any || next < packets.size() || !credits.empty();
    for (int n = 0; n < nodes; n++) {
      busy = busy || !backlog[n].empty() || !cur[n].empty();
      for (auto &q : node[n].rx) busy = busy || !q.second.empty();
    }
    idle = busy ? 0 : idle + 1;
    if (got >= total && idle > 60) { finished = true; break; }
    if (idle > 3000) break;
  }
  // what is left: credits in use at the sources and the routers, flits in the routers' buffers
  int used = 0, occ = 0;
  for (int n = 0; n < nodes; n++) used += node[n].bs->Occupancy();
  for (auto *r : net->GetRouters()) {
    for (int u : r->UsedCredits()) used += u;
    for (int i = 0; i < r->NumInputs(); i++) occ += r->GetBufferOccupancy(i);
  }
  int unavailable = 0;
  for (int n = 0; n < nodes; n++)
    for (int v = 0; v < vcs; v++) unavailable += !node[n].bs->IsAvailableFor(v);
  out << "{\"e\":\"end\",\"fin\":" << (finished ? 1 : 0) << ",\"t\":" << g_now << ",\"used\":" << used << ",\"occ\":" << occ << ",\"una\":" << unavailable << "}\n";
  out.flush();
  _Exit(0);
}

// Follows the routing function over the wiring for every pair of nodes
static void walk(Network *net, tRoutingFunction rf, BookSimConfig &cfg, int types, int repeat, bool rnd) {
  const char *tn[5] = {"read_request", "write_request", "write_data", "read_reply", "write_reply"};
  std::map<const FlitChannel *, int> chan;
  for (size_t i = 0; i < net->GetChannels().size(); i++) chan[net->GetChannels()[i]] = i;
  for (int ty = 0; ty < types; ty++)
    for (int s = 0; s < net->NumNodes(); s++)
      for (int d = 0; d < net->NumNodes(); d++)
        for (int rep = 0; rep < repeat; rep++) {
          const FlitChannel *ch = net->GetInject(s);
          if (!ch->GetSink() || !net->GetEject(d)->GetSource()) continue;
          Flit *f = Flit::New();
          f->src = s; f->dest = d; f->type = (Flit::FlitType)ty; f->head = f->tail = true; f->hops = 0; f->pid = f->id = 1 + rep;
          f->vc = cfg.GetInt(std::string(tn[ty]) + "_begin_vc");
          out << "{\"e\":\"W\",\"s\":" << s << ",\"d\":" << d << ",\"ty\":" << ty << ",\"path\":[";
          bool first = true, ok = false;
          for (int step = 0; step < 4 * net->NumRouters() + 4; step++) {
            const Router *r = ch->GetSink();
            OutputSet os;
            net->UseRoutingGlobals();
            rf(r, f, ch->GetSinkPort(), &os, false);
            std::vector<OutputSet::sSetElement> el(os.GetSet().begin(), os.GetSet().end());
            if (el.empty()) break;
            // one step is [router, vc it came on, output port, lowest vc, highest vc, link, next router]
            OutputSet::sSetElement e = el[rnd ? RandomInt(el.size() - 1) : 0];
            int port = e.output_port;
            if (port < 0 || port >= r->NumOutputs()) { out << (first ? "" : ",") << "[" << r->GetID() << "," << f->vc << "," << port << "," << e.vc_start << "," << e.vc_end << ",-2,-2]"; break; }
            const FlitChannel *nx = r->GetOutputChannel(port);
            bool ej = false;
            for (int n = 0; n < net->NumNodes(); n++)
              if (net->GetEject(n) == nx) {
                ej = true;
                out << (first ? "" : ",") << "[" << r->GetID() << "," << f->vc << "," << port << "," << e.vc_start << "," << e.vc_end << ",-1," << n << "]";
              }
            if (ej) { ok = true; break; }
            out << (first ? "" : ",") << "[" << r->GetID() << "," << f->vc << "," << port << "," << e.vc_start << "," << e.vc_end << "," << chan[nx] << "," << nx->GetSink()->GetID() << "]";
            first = false;
            f->vc = rnd ? e.vc_start + RandomInt(e.vc_end - e.vc_start) : e.vc_start;
            f->hops++;
            ch = nx;
          }
          out << "],\"ok\":" << (ok ? 1 : 0) << "}\n";
          f->Free();
        }
}

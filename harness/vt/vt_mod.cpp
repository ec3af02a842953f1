#include <vt_mod.hpp>
#include <algorithm>

std::vector<vt_mod *> &vt_mods() {
  static std::vector<vt_mod *> v;
  return v;
}

std::vector<RADSimDesignContext *> &vt_ctxs() {
  static std::vector<RADSimDesignContext *> v(64, nullptr);
  return v;
}

template <int W> static std::string hex(const sc_bv<W> &v, int w) {
  static const char *d = "0123456789abcdef";
  if (w > W) w = W;
  std::string s;
  for (int i = 0; i < w; i += 4) {
    int n = 0;
    for (int b = 0; b < 4 && i + b < w; b++)
      if (v[i + b].to_bool()) n |= 1 << b;
    s.push_back(d[n]);
  }
  while (s.size() > 1 && s.back() == '0') s.pop_back();
  std::reverse(s.begin(), s.end());
  return s;
}
template <int W> static void unhex(sc_bv<W> &v, const std::string &h) {
  v = 0;
  int bit = 0;
  for (size_t i = h.size(); i-- > 0;) {
    int n = h[i] <= '9' ? h[i] - '0' : h[i] - 'a' + 10;
    for (int b = 0; b < 4 && bit < W; b++, bit++) v[bit] = (n >> b) & 1;
  }
}
static std::string now() { return std::to_string((long)sc_time_stamp().value()); }
static void ev(const char *e, const std::string &p, const std::string &extra) {
  vt_activity_ns = (long)(sc_time_stamp().to_seconds() * 1e9);
  vt_log(std::string("{\"e\":\"") + e + "\",\"p\":\"" + p + "\"" + extra + ",\"t\":" + now() + "}");
}

vt_mod::vt_mod(const sc_module_name &name, RADSimDesignContext *rd_, const VtMod &cfg_)
    : RADSimModule(name, rd_), rd(rd_), cfg(cfg_) {
  vt_ctxs()[rd->rad_id] = rd;
  for (auto &p : cfg.ports) {
    if (p.mm && p.master) mm[p.name] = new aximm_master_port();
    else if (p.mm) ms[p.name] = new aximm_slave_port();
    else if (p.master) sm[p.name] = new axis_master_port();
    else ss[p.name] = new axis_slave_port();
  }
  SC_CTHREAD(Tick, clk.pos());
  reset_signal_is(rst, true);
  RegisterModuleInfo();
  vt_mods().push_back(this);
}

void vt_mod::RegisterModuleInfo() {
  for (auto &p : cfg.ports) {
    std::string n = module_name + "." + p.name;
    if (p.mm && p.master) RegisterAximmMasterPort(n, mm[p.name], p.dataw);
    else if (p.mm) RegisterAximmSlavePort(n, ms[p.name], p.dataw);
    else if (p.master) RegisterAxisMasterPort(n, sm[p.name], p.dataw, p.type);
    else RegisterAxisSlavePort(n, ss[p.name], p.dataw, p.type);
  }
}

VtSend &vt_mod::Snd(const std::string &key) {
  VtSend &s = snd[key];
  if (!s.c) {
    static const VtChan empty;
    auto &m = vt_scenario(rd->rad_id).chans;
    auto it = m.find(key);
    s.c = it == m.end() ? &empty : &it->second;
    s.key = "r" + std::to_string(rd->rad_id) + "." + key;
    if (!s.c->items.empty()) s.wait = s.c->items[0].gap;
  }
  return s;
}
VtRecv &vt_mod::Rcv(const std::string &key) {
  VtRecv &r = rcv[key];
  if (!r.c) {
    static const VtChan empty;
    auto &m = vt_scenario(rd->rad_id).chans;
    auto it = m.find(key);
    r.c = it == m.end() ? &empty : &it->second;
    r.key = "r" + std::to_string(rd->rad_id) + "." + key;
  }
  return r;
}

bool vt_mod::AllSent() {
  for (auto &kv : snd)
    if (kv.second.pos < kv.second.c->items.size()) return false;
  return true;
}

bool vt_mod::NextReady(VtRecv &r, bool valid, bool hs) {
  long ns = (long)(sc_time_stamp().to_seconds() * 1e9);
  if (ns >= vt_scenario(rd->rad_id).drain_ns) return true;
  if (r.c->lazy >= 0) {
    if (hs) { r.seen = 0; return false; }
    if (valid) r.seen++;
    return valid && r.seen > r.c->lazy;
  }
  char ch = r.c->pat[r.cyc % r.c->pat.size()];
  r.cyc++;
  return ch == '1';
}

// One sample of a receiving channel.
void vt_mod::See(VtRecv &r, bool valid, bool ready, const std::string &what) {
  if (valid) {
    if (!r.shown || r.taken || r.what != what)
      ev("P", r.key, ",\"m\":\"" + what + "\"");
    if (ready) { ev("T", r.key, ",\"m\":\"\""); r.count++; }
    r.taken = ready;
  } else {
    if (r.shown && !r.taken) ev("N", r.key, ",\"m\":\"\"");
    r.taken = false;
  }
  r.shown = valid;
  r.what = what;
}

// One sample of a sending channel; returns the beat to offer next (or null).
const VtItem *vt_mod::Step(VtSend &s, bool valid, bool ready, const std::string &what,
                           const std::string &trig) {
  long ns = (long)(sc_time_stamp().to_seconds() * 1e9);
  auto &it = s.c->items;
  if (valid && ready) {
    auto &i = it[s.pos];
    static int accepted = 0;
    int tn = radsim_config.GetIntKnobShared("telemetry_num_traces"), tr = -1;
    if (tn > 0) sim_trace_probe.record_event(tr = accepted++ % tn);
    ev("A", s.key, ",\"tr\":" + std::to_string(tr) + ",\"d\":\"r" + std::to_string(i.dst_rad) + "." + i.dst + "\",\"m\":\"" + what + "\"");
    s.pos++; s.offering = false; s.age = 0;
    if (s.pos < it.size()) s.wait = it[s.pos].gap;
  } else if (valid) {
    s.age++;
    if (it[s.pos].tmo > 0 && s.age >= it[s.pos].tmo) {
      s.pos++; s.offering = false; s.age = 0;
      if (s.pos < it.size()) s.wait = it[s.pos].gap;
    }
  }
  if (s.offering) return &it[s.pos];
  if (s.pos >= it.size()) return nullptr;
  if (s.wait > 0) { s.wait--; return nullptr; }
  if (ns < it[s.pos].nb) return nullptr;
  if (it[s.pos].after > 0) {
    if (trig[0] == '>') {   // after that many beats sent on another channel
      if ((int)Snd(trig.substr(1)).pos < it[s.pos].after) return nullptr;
    } else if (!rcv.count(trig) || rcv[trig].count < it[s.pos].after) return nullptr;
  }
  s.offering = true;
  vt_activity_ns = ns;
  return &it[s.pos];
}

// What the payload lines carry while nothing is offered: some other beat of
// this channel, falsified.  Nothing of it may show up anywhere.
const VtItem *vt_mod::Idle(VtSend &s, VtItem &x) {
  auto &it = s.c->items;
  if (it.empty() || s.idle++ % 5) return nullptr;
  x = it[(s.pos + s.idle / 5 + 1) % it.size()];
  auto flip = [](std::string &h) {
    for (size_t k = 1; k < h.size(); k++) {
      int v = 15 ^ (int)strtol(h.substr(k, 1).c_str(), nullptr, 16);
      h[k] = "0123456789abcdef"[v];
    }
  };
  flip(x.data); flip(x.user);
  x.last = !x.last;
  return &x;
}

#define OFFER(ch, MSG, TRIG)                                                   \
  VtSend &q = Snd(k);                                                          \
  bool v = p.ch##valid.read(), r = p.ch##ready.read();                         \
  const VtItem *i = Step(q, v, r, (v && r) ? (MSG) : std::string(), TRIG);      \
  p.ch##valid.write(i != nullptr);                                             \
  VtItem junk;                                                                 \
  if (i) q.idle = 0; else i = Idle(q, junk);

#define SEE(ch, MSG)                                                           \
  VtRecv &q = Rcv(k);                                                          \
  bool v = p.ch##valid.read(), r = p.ch##ready.read();                         \
  See(q, v, r, v ? (MSG) : std::string());                                     \
  p.ch##ready.write(NextReady(q, v, v && r));

void vt_mod::Tick() {
  for (auto &kv : sm) kv.second->Reset();
  for (auto &kv : ss) kv.second->tready.write(false);
  for (auto &kv : mm) kv.second->Reset();
  for (auto &kv : ms) {
    auto &p = *kv.second;
    p.arready.write(false); p.awready.write(false); p.wready.write(false);
    p.rvalid.write(false); p.bvalid.write(false);
  }
  wait();
  while (true) {
    double t = sc_time_stamp().to_seconds() * 1e12;
    if (first_edge < 0) first_edge = t;
    last_edge = t;
    edges++;
    for (auto &pc : cfg.ports) {
      std::string base = module_name + "." + pc.name + "/";
      if (!pc.mm && pc.master) {
        auto &p = *sm[pc.name];
        std::string k = base + "s";
        OFFER(t, hex(p.tdata.read(), pc.dataw) + ":" + hex(p.tuser.read(), AXIS_USERW) + ":" + (p.tlast.read() ? "1" : "0"), "")
        if (i) {
          sc_bv<AXIS_MAX_DATAW> d; unhex(d, i->data);
          sc_bv<AXIS_USERW> u; unhex(u, i->user);
          sc_bv<AXIS_DESTW> dest = 0;
          RADSimDesignContext *dc = vt_ctxs()[i->dst_rad];
          std::string dn = i->dst;
          unsigned node = dc->GetPortDestinationID(dn);
          if (i->dst_rad == (int)rd->rad_id) {
            DEST_REMOTE_NODE(dest) = 0;
            DEST_LOCAL_NODE(dest) = node;
          } else {
            DEST_REMOTE_NODE(dest) = node;
            DEST_LOCAL_NODE(dest) = 0;
          }
          DEST_RAD(dest) = i->dst_rad;
          p.tdata.write(d); p.tuser.write(u); p.tlast.write(i->last != 0);
          p.tdest.write(dest);
          p.tid.write(dc->GetPortInterfaceID(dn));
          p.tstrb.write(0); p.tkeep.write(0);
        }
      } else if (!pc.mm) {
        auto &p = *ss[pc.name];
        std::string k = base + "s";
        SEE(t, hex(p.tdata.read(), pc.dataw) + ":" + hex(p.tuser.read(), AXIS_USERW) + ":" + (p.tlast.read() ? "1" : "0"))
      } else if (pc.master) {
        auto &p = *mm[pc.name];
        // destination address = base address of the responder + offset
#define AX(ch, TRIG)                                                           \
        {                                                                      \
          std::string k = base + #ch;                                          \
          OFFER(ch, hex(p.ch##addr.read(), 64) + ":" + std::to_string(p.ch##len.read().to_uint()) + ":" + std::to_string(p.ch##size.read().to_uint()) + ":" + std::to_string(p.ch##burst.read().to_uint()) + ":" + hex(p.ch##user.read(), AXI4_USERW) + ":" + std::to_string(p.ch##id.read().to_uint()), TRIG) \
          if (i) {                                                             \
            sc_bv<64> a; unhex(a, i->addr);                                    \
            std::string dn = i->dst;                                           \
            sc_bv<64> ba = rd->GetPortBaseAddress(dn);                         \
            p.ch##addr.write(a | ba);                                          \
            sc_bv<AXI4_USERW> u; unhex(u, i->user);                            \
            std::string me = module_name + "." + pc.name;                      \
            sc_bv<64> mb = rd->GetPortBaseAddress(me);                         \
            sc_bv<AXI4_USERW> um = 0;                                          \
            for (int b = 0; b < 64 && b < AXI4_USERW; b++) um[b] = mb[b];      \
            p.ch##user.write(u | um);                                          \
            p.ch##id.write(i->id); p.ch##len.write(i->len);                    \
            p.ch##size.write(i->size); p.ch##burst.write(i->burst);            \
          }                                                                    \
        }
        AX(ar, "")
        AX(aw, ">" + base + "w")
        {
          std::string k = base + "w";
          OFFER(w, hex(p.wdata.read(), pc.dataw) + ":" + hex(p.wuser.read(), AXI4_USERW) + ":" + (p.wlast.read() ? "1" : "0") + ":" + std::to_string(p.wid.read().to_uint()), "")
          if (i) {
            sc_bv<AXI4_MAX_DATAW> d; unhex(d, i->data);
            sc_bv<AXI4_USERW> u; unhex(u, i->user);
            p.wdata.write(d); p.wuser.write(u); p.wlast.write(i->last != 0); p.wid.write(i->id);
          }
        }
        {
          std::string k = base + "r";
          SEE(r, hex(p.rdata.read(), pc.dataw) + ":" + hex(p.ruser.read(), AXI4_USERW) + ":" + std::to_string(p.rresp.read().to_uint()) + ":" + (p.rlast.read() ? "1" : "0") + ":" + std::to_string(p.rid.read().to_uint()))
        }
        {
          std::string k = base + "b";
          SEE(b, hex(p.buser.read(), AXI4_USERW) + ":" + std::to_string(p.bresp.read().to_uint()) + ":" + std::to_string(p.bid.read().to_uint()))
        }
      } else {
        auto &p = *ms[pc.name];
#define AXS(ch)                                                                \
        {                                                                      \
          std::string k = base + #ch;                                          \
          SEE(ch, hex(p.ch##addr.read(), 64) + ":" + std::to_string(p.ch##len.read().to_uint()) + ":" + std::to_string(p.ch##size.read().to_uint()) + ":" + std::to_string(p.ch##burst.read().to_uint()) + ":" + hex(p.ch##user.read(), AXI4_USERW) + ":" + std::to_string(p.ch##id.read().to_uint())) \
        }
        AXS(ar)
        AXS(aw)
        {
          std::string k = base + "w";
          SEE(w, hex(p.wdata.read(), pc.dataw) + ":" + hex(p.wuser.read(), AXI4_USERW) + ":" + (p.wlast.read() ? "1" : "0") + ":" + std::to_string(p.wid.read().to_uint()))
        }
        {
          std::string k = base + "r";
          OFFER(r, hex(p.rdata.read(), pc.dataw) + ":" + hex(p.ruser.read(), AXI4_USERW) + ":" + std::to_string(p.rresp.read().to_uint()) + ":" + (p.rlast.read() ? "1" : "0") + ":" + std::to_string(p.rid.read().to_uint()), base + "ar")
          if (i) {
            sc_bv<AXI4_MAX_DATAW> d; unhex(d, i->data);
            sc_bv<AXI4_USERW> u; unhex(u, i->user);
            std::string dn = i->dst;
            sc_bv<64> mb = rd->GetPortBaseAddress(dn);
            for (int b = 0; b < 64 && b < AXI4_USERW; b++) if (mb[b].to_bool()) u[b] = 1;
            p.rdata.write(d); p.ruser.write(u); p.rresp.write(i->resp); p.rlast.write(i->last != 0); p.rid.write(i->id);
          }
        }
        {
          std::string k = base + "b";
          OFFER(b, hex(p.buser.read(), AXI4_USERW) + ":" + std::to_string(p.bresp.read().to_uint()) + ":" + std::to_string(p.bid.read().to_uint()), base + "aw")
          if (i) {
            sc_bv<AXI4_USERW> u; unhex(u, i->user);
            std::string dn = i->dst;
            sc_bv<64> mb = rd->GetPortBaseAddress(dn);
            for (int b = 0; b < 64 && b < AXI4_USERW; b++) if (mb[b].to_bool()) u[b] = 1;
            p.buser.write(u); p.bresp.write(i->resp); p.bid.write(i->id);
          }
        }
      }
    }
    wait();
  }
}

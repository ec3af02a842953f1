#include <vt_driver.hpp>
vt_driver::vt_driver(const sc_module_name &name, RADSimDesignContext *rd_) : sc_module(name), rd(rd_) {
  vt_live++;
  SC_CTHREAD(run, clk.pos());
  if (vt_scenario(rd->rad_id).watch) {
    SC_THREAD(watch);
  }
}
static sc_time vt_now;
static void vt_end() {
  vt_log("{\"e\":\"end\",\"t\":" + std::to_string((long)vt_now.value()) + "}");
  vt_flush();
}
void vt_driver::watch() {
  static bool once = false;
  if (!once) atexit(vt_end);
  once = true;
  while (true) {
    vt_now = sc_time_stamp();
    wait(1, SC_NS);
  }
}
static void vt_talk(int n, unsigned rad) {
  std::string m = "rad " + std::to_string(rad);
  sim_log.log(debug, m);
  sim_log.log(info, m);
  sim_log.log(sim_trace, m, "driver");
  sim_log.log(warning, m);
  if (n > 1) sim_log.log(critical, m);
  for (int i = 0; i < n; i++) sim_trace_probe.record_event(i);
}
static void vt_fail(RADSimDesignContext *rd) {
  vt_log("{\"e\":\"fail\",\"p\":\"r" + std::to_string(rd->rad_id) + "\",\"t\":" + std::to_string((long)sc_time_stamp().value()) + "}");
  rd->ReportDesignFailure();
}
void vt_driver::run() {
  const VtScn &s = vt_scenario(rd->rad_id);
  size_t failed = 0;
  rst.write(true);
  for (int i = 0; i < s.reset_cycles; i++) wait();
  rst.write(false);
  wait();
  while (true) {
    long ns = (long)(sc_time_stamp().to_seconds() * 1e9);
    bool quiet = ns - std::max(s.drain_ns, vt_activity_ns) >= s.quiet_ns;
    if (quiet)
      for (auto *m : vt_mods()) {   // beats scheduled for later keep us awake
        for (auto &kv : m->snd) {
          auto &q = kv.second;
          if (q.pos < q.c->items.size() && !q.offering &&
              (q.c->items[q.pos].nb + s.quiet_ns > ns || q.wait > 0)) quiet = false;
        }
      }
    if (s.talk) vt_talk(s.talk, rd->rad_id);
    while (failed < s.fail_ns.size() && ns >= s.fail_ns[failed]) { vt_fail(rd); failed++; }
    bool done = s.done_always ? ns >= s.done_ns : (quiet || ns >= s.max_ns || (s.done_ns >= 0 && ns >= s.done_ns));
    if (done) break;
    wait();
  }
  if (s.fail) vt_fail(rd);
  int unsent = 0;
  for (auto *m : vt_mods()) if (m->rd == rd && !m->AllSent()) unsent++;
  vt_log("{\"e\":\"done\",\"p\":\"r" + std::to_string(rd->rad_id) + "\",\"unsent\":" + std::to_string(unsent) + ",\"t\":" +
         std::to_string((long)sc_time_stamp().value()) + "}");
  if (--vt_live == 0) {
    for (auto *m : vt_mods()) {
      char b[200];
      snprintf(b, sizeof b, ",\"edges\":%ld,\"first\":%.0f,\"last\":%.0f}", m->edges, m->first_edge, m->last_edge);
      vt_log("{\"e\":\"clk\",\"p\":\"r" + std::to_string(m->rd->rad_id) + "." + m->module_name + "\"" + b);
    }
    vt_flush();
    NoCTransactionTelemetry::DumpStatsToFile("stats.csv");
    NoCFlitTelemetry::DumpNoCFlitTracesToFile("flits.csv");
    int cyc = GetSimulationCycle(radsim_config.GetDoubleKnobShared("sim_driver_period"));
    for (size_t r = 0; r < vt_ctxs().size(); r++) {
      if (!vt_ctxs()[r]) continue;
      std::string k = r ? std::to_string(r) : "";
      FILE *f = fopen(("agg" + k + ".txt").c_str(), "w");
      auto v = NoCTransactionTelemetry::DumpTrafficFlows("flows" + k, cyc, vt_ctxs()[r]->GetNodeModuleNames(), r);
      fprintf(f, "cycles %d\n", cyc);
      for (double d : v) fprintf(f, "agg %.17g\n", d);
      fclose(f);
    }
  }
  rd->set_rad_done();
  while (true) {
    if (s.talk) vt_talk(s.talk, rd->rad_id);
    while (failed < s.fail_ns.size() && sc_time_stamp().to_seconds() * 1e9 >= s.fail_ns[failed]) { vt_fail(rd); failed++; }
    wait();
  }
}

// Drives BookSim's arbiters and allocators through their public interface.
// alloc SCRIPT OUT;  the script holds, one per line,
//   arb KIND SIZE            a new arbiter (KIND prio: the priority arbiter)
//   g UPD n (in id pri)*     one arbitration
//   all KIND IN OUT          a new allocator
//   m n (in out label inpri outpri op)*   one allocation; op 1: the request is withdrawn and made again, 2: withdrawn
//   clear n (in out)*        requests that are cleared before any allocation
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "booksim.hpp"
#include "booksim_config.hpp"
#include "allocators/allocator.hpp"
#include "arbiters/arbiter.hpp"
#include "arbiters/prio_arb.hpp"
#include "random_utils.hpp"

std::ostream *gWatchOut = nullptr;
double GetSimTime() { return 0; }
extern "C" int sc_main(int, char **) { return 0; }

int main(int argc, char **argv) {
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  RandomSeed(11);
  BookSimConfig cfg;
  std::unique_ptr<Arbiter> arb;
  std::unique_ptr<PriorityArbiter> prio;
  std::unique_ptr<Allocator> al;
  int ni = 0, no = 0;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string w, kind;
    s >> w;
    if (w == "arb") {
      int n;
      s >> kind >> n;
      prio.reset(); arb.reset();
      if (kind == "prio") prio.reset(new PriorityArbiter(cfg, nullptr, "a", n));
      else arb.reset(Arbiter::NewArbiter(nullptr, "a", kind, n));
      out << "{\"e\":\"new\"}" << std::endl;
    } else if (w == "all") {
      s >> kind >> ni >> no;
      al.reset(Allocator::NewAllocator(nullptr, "a", kind, ni, no));
      out << "{\"e\":\"new\"}" << std::endl;
    } else if (w == "g") {
      int upd, n;
      s >> upd >> n;
      std::ostringstream rq;
      for (int k = 0; k < n; k++) {
        int i, id, pri;
        s >> i >> id >> pri;
        if (prio) prio->AddRequest(i, id, pri); else arb->AddRequest(i, id, pri);
        rq << (k ? "," : "") << "[" << i << "," << id << "," << pri << "]";
      }
      int id = -1, pri = -1, win;
      if (prio) { prio->Arbitrate(); win = prio->Match(); }
      else { win = arb->Arbitrate(&id, &pri); if (upd) arb->UpdateState(); }
      if (prio) prio->Clear(); else arb->Clear();
      out << "{\"e\":\"G\",\"upd\":" << (upd ? "true" : "false") << ",\"req\":[" << rq.str() << "],\"win\":" << win << ",\"id\":" << id << ",\"pri\":" << pri << "}" << std::endl;
    } else if (w == "clear") {
      int n;
      s >> n;
      al->Clear();
      for (int k = 0; k < n; k++) { int i, o; s >> i >> o; al->AddRequest(i, o); }
      al->Clear();
    } else if (w == "m") {
      int n;
      s >> n;
      al->Clear();
      std::ostringstream rq;
      bool first = true;
      for (int k = 0; k < n; k++) {
        int i, o, l, ip, op, how;
        s >> i >> o >> l >> ip >> op >> how;
        al->AddRequest(i, o, l, ip, op);
        if (how) al->RemoveRequest(i, o, l);
        if (how == 1) al->AddRequest(i, o, l, ip, op);
        if (how != 2) { rq << (first ? "" : ",") << "[" << i << "," << o << "]"; first = false; }
      }
      al->Allocate();
      out << "{\"e\":\"M\",\"req\":[" << rq.str() << "],\"in\":[";
      for (int i = 0; i < ni; i++) out << (i ? "," : "") << al->OutputAssigned(i);
      out << "],\"out\":[";
      for (int o = 0; o < no; o++) out << (o ? "," : "") << al->InputAssigned(o);
      out << "]}" << std::endl;
    }
  }
  out << "{\"e\":\"end\"}" << std::endl;
  return 0;
}

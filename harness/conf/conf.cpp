// Reads generated settings back through the simulator's own parsers.
// conf KNOBS NRADS DIR < queries; one answer per line, fields separated by tabs:
//   i P | d P | s P | vs P                     settings of the cluster
//   ri P R | rs P R | rvi P R | rvd P R | rvs P R   settings of a device
//   b R K KEY i|s                              setting of NoC K of device R
#include <cstdio>
#include <iostream>
#include <sstream>
#include <map>
#include <memory>
#include "booksim_config.hpp"
#include <radsim_config.hpp>

RADSimConfig radsim_config;
std::ostream *gWatchOut = &std::cout;

int GetSimTime() { return 0; }
int sc_main(int, char **) { return 0; }

int main(int argc, char **argv) {
  radsim_config.ResizeAll(atoi(argv[2]));
  ParseRADSimKnobs(argv[1]);
  std::map<std::pair<int, int>, std::unique_ptr<BookSimConfig>> noc;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::stringstream in(line);
    std::string t, p, w;
    int r = 0, k = 0;
    in >> t;
    if (t == "b") {
      in >> r >> k >> p >> w;
      auto &c = noc[{r, k}];
      if (!c) {
        c.reset(new BookSimConfig());
        c->ParseFile(std::string(argv[3]) + "/noc" + std::to_string(k) + "_rad" + std::to_string(r) + "_config");
      }
      if (w == "i") printf("%d\n", c->GetInt(p));
      else printf("%s\n", c->GetStr(p).c_str());
      continue;
    }
    in >> p >> r;
    if (t == "i") printf("%d", radsim_config.GetIntKnobShared(p));
    if (t == "d") printf("%.17g", radsim_config.GetDoubleKnobShared(p));
    if (t == "s") printf("%s", radsim_config.GetStringKnobShared(p).c_str());
    if (t == "vs") for (auto &x : radsim_config.GetStringVectorKnobShared(p)) printf("%s\t", x.c_str());
    if (t == "ri") printf("%d", radsim_config.GetIntKnobPerRad(p, r));
    if (t == "rs") printf("%s", radsim_config.GetStringKnobPerRad(p, r).c_str());
    if (t == "rvi") for (size_t j = 0; j < radsim_config.GetIntVectorKnobPerRad(p, r).size(); j++) printf("%d\t", radsim_config.GetIntVectorKnobPerRad(p, j, r));
    if (t == "rvd") for (size_t j = 0; j < radsim_config.GetDoubleVectorKnobPerRad(p, r).size(); j++) printf("%.17g\t", radsim_config.GetDoubleVectorKnobPerRad(p, j, r));
    if (t == "rvs") for (size_t j = 0; j < radsim_config.GetStringVectorKnobPerRad(p, r).size(); j++) printf("%s\t", radsim_config.GetStringVectorKnobPerRad(p, j, r).c_str());
    printf("\n");
    fflush(stdout);
  }
  return 0;
}

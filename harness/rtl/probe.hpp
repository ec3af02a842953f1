#pragma once
// What a wrapper and the module inside it look like, told from outside.
#include <design_context.hpp>
#include <systemc.h>
#include <iostream>
#include <map>
template <class T> struct Wd;
template <> struct Wd<bool> { enum { w = 1 }; };
template <int N> struct Wd<sc_bv<N>> { enum { w = N }; };
template <class T> int width(const T *) { return Wd<T>::w; }
template <class T> std::pair<std::string, int> shape(const sc_in<T> &) { return {"input", int(Wd<T>::w)}; }
template <class T> std::pair<std::string, int> shape(const sc_out<T> &) { return {"output", int(Wd<T>::w)}; }
template <class T> std::pair<std::string, int> shape(const sc_inout<T> &) { return {"inout", int(Wd<T>::w)}; }
inline std::map<sc_interface *, std::string> &ties() { static std::map<sc_interface *, std::string> m; return m; }
template <class P> void tie_up(P &p, const std::string &n) {
  auto *s = new sc_signal<typename P::data_type, SC_MANY_WRITERS>(("s" + std::to_string(ties().size())).c_str());
  p.bind(*s);
  ties()[s] = n;
}
template <class P> void joined(P &p, const char *n) {
  sc_interface *i = p.size() ? p.get_interface() : nullptr;
  std::cout << "@join " << n << " " << (i && ties().count(i) ? ties()[i] : "nothing") << std::endl;
}
template <class P> void member(P &p, const char *rtl) {
  auto s = shape(p);
  std::cout << "@member " << rtl << " " << s.first << " " << s.second << std::endl;
}
template <class M> void interfaces(M *w, unsigned dataw) {
  auto out = [&](const char *kind, const char *role, const std::string &k) {
    std::string pre = w->module_name + ".";
    bool ok = k.substr(0, pre.size()) == pre && w->_ports_dataw[k] == dataw && w->_ports_is_aximm[k] == (std::string(kind) == "aximm");
    std::cout << "@interface " << (ok ? kind : "wrong") << " " << role << " " << k.substr(std::min(k.size(), pre.size())) << std::endl;
  };
  for (auto &x : w->_axis_slave_ports) out("axis", "slave", x.first);
  for (auto &x : w->_axis_master_ports) out("axis", "master", x.first);
  for (auto &x : w->_aximm_slave_ports) out("aximm", "slave", x.first);
  for (auto &x : w->_aximm_master_ports) out("aximm", "master", x.first);
}

// Helper module of the C19 monitor: the C++ side's own view of objects that Python holds.
#include "ami_base.hpp"
#include <pybind11/pybind11.h>
namespace py = pybind11;
typedef AmiBase A;
static py::list li(const std::vector<int> &v) { py::list l; for (int x : v) l.append(x); return l; }
static py::list lc(const std::vector<std::complex<double>> &v) { py::list l; for (auto &x : v) l.append(py::make_tuple(x.real(), x.imag())); return l; }
static py::dict vg(const A::g_struct &g) { py::dict d; d["eps_"] = li(g.eps_); d["alpha_"] = li(g.alpha_); d["stat_"] = int(g.stat_); d["species_"] = int(g.species_); d["eff_stat_"] = int(g.eff_stat_); d["pp"] = g.pp; return d; }
static py::dict vp(const A::pole_struct &p) { py::dict d; d["eps_"] = li(p.eps_); d["alpha_"] = li(p.alpha_); d["index_"] = p.index_; d["multiplicity_"] = p.multiplicity_; d["der_"] = p.der_; d["which_g_"] = li(p.which_g_); d["x_alpha_"] = li(p.x_alpha_); return d; }
PYBIND11_MODULE(amiprobe, m) {
  m.def("vars", [](A::ami_vars &v) { py::dict d; d["energy_"] = lc(v.energy_); d["frequency_"] = lc(v.frequency_); d["prefactor"] = v.prefactor; d["BETA_"] = v.BETA_; d["gamma_"] = v.gamma_; return d; });
  m.def("parms", [](A::ami_parms &p) { py::dict d; d["N_INT_"] = p.N_INT_; d["N_EXT_"] = p.N_EXT_; d["E_REG_"] = p.E_REG_; d["tol_"] = p.tol_; d["TYPE_"] = int(p.TYPE_); d["int_type_"] = int(p.int_type_); d["dispersion_"] = int(p.dispersion_); return d; });
  m.def("g_struct", &vg);
  m.def("pole_struct", &vp);
  m.def("term", [](A::term &t) { py::dict d; d["sign"] = t.sign; py::list p, g; for (auto &x : t.p_list) p.append(vp(x)); for (auto &x : t.g_list) g.append(vg(x)); d["p_list"] = p; d["g_list"] = g; return d; });
  // write every member from C++
  m.def("poke_vars", [](A::ami_vars &v, double a) { v.energy_ = {a, a + 1}; v.frequency_ = {a + 2}; v.prefactor = a + 3; v.BETA_ = a + 4; v.gamma_ = a + 5; });
  m.def("poke_parms", [](A::ami_parms &p, int a) { p.N_INT_ = a; p.N_EXT_ = a + 1; p.E_REG_ = a + 2; p.tol_ = a + 3; p.TYPE_ = A::graph_type(a % 13); p.int_type_ = A::int_type(a % 2); p.dispersion_ = A::disp_type(a % 3); });
  m.def("poke_g_struct", [](A::g_struct &g, int a) { g.eps_ = {a}; g.alpha_ = {a + 1, a}; g.species_ = a + 2; g.pp = a + 3; g.stat_ = A::stat_type(a % 2); g.eff_stat_ = A::stat_type((a + 1) % 2); });
  m.def("poke_pole_struct", [](A::pole_struct &p, int a) { p.eps_ = {a}; p.alpha_ = {a + 1}; p.index_ = a + 2; p.multiplicity_ = a + 3; p.der_ = a + 4; p.which_g_ = {a + 5}; p.x_alpha_ = {a + 6}; });
}

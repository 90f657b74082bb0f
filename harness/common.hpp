// What every harness shares: scenarios in (one JSON object per line), records
// out (one JSON object per line, one file per rank), exact integer encodings.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP

#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/ptree.hpp>

#include <deal.II/base/mpi.h>

#include <cmath>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vh
{
using Scenario = boost::property_tree::ptree;

// ------------------------------------------------------------------ JSON out
struct J
{
  std::string s;
};
inline std::string esc(std::string const &v)
{
  std::ostringstream o;
  for (unsigned char c : v)
  {
    if (c == '"' || c == '\\')
      o << '\\' << c;
    else if (c < 32 || c > 126)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o << b;
    }
    else
      o << c;
  }
  return o.str();
}
inline J js(J const &v) { return v; }
inline J js(bool v) { return {v ? "true" : "false"}; }
inline J js(int v) { return {std::to_string(v)}; }
inline J js(unsigned int v) { return {std::to_string(v)}; }
inline J js(long v) { return {std::to_string(v)}; }
inline J js(unsigned long v) { return {std::to_string(v)}; }
inline J js(long long v) { return {std::to_string(v)}; }
inline J js(std::string const &v) { return {"\"" + esc(v) + "\""}; }
inline J js(char const *v) { return js(std::string(v)); }
struct Rec;
inline J js(Rec const &r);
template <typename A, typename B>
J js(std::pair<A, B> const &v);
template <typename T>
J js(std::vector<T> const &v)
{
  std::string s = "[";
  for (std::size_t i = 0; i < v.size(); ++i)
    s += (i ? "," : "") + js(static_cast<T>(v[i])).s;
  return {s + "]"};
}
template <typename T>
J js(std::set<T> const &v)
{
  return js(std::vector<T>(v.begin(), v.end()));
}
template <typename A, typename B>
J js(std::pair<A, B> const &v)
{
  return {"[" + js(v.first).s + "," + js(v.second).s + "]"};
}

struct Rec
{
  std::string s;
  template <typename T>
  Rec &operator()(std::string const &k, T const &v)
  {
    s += (s.empty() ? "" : ",") + ("\"" + k + "\":") + js(v).s;
    return *this;
  }
  J j() const { return {"{" + s + "}"}; }
};
inline J js(Rec const &r) { return r.j(); }

// A double as an integer multiple of 1/scale.  exact() insists that nothing is
// lost; fixed() rounds to nearest.  Both clamp to what TLC can hold, with a
// value no correct run produces.
constexpr long BAD = 2000000000L;
inline long exact(double v, double scale = 1.)
{
  double const w = v * scale;
  if (!(std::fabs(w) < 1.9e9) || std::nearbyint(w) != w)
    return BAD;
  return static_cast<long>(w);
}
inline long fixed(double v, double scale)
{
  double const w = v * scale;
  if (!(std::fabs(w) < 1.9e9))
    return BAD;
  return std::lround(w);
}

// ------------------------------------------------------------------- records
struct Out
{
  std::ofstream f;
  std::string sc;
  void put(std::string const &ev, Rec r)
  {
    Rec h;
    h("ev", ev)("sc", sc);
    f << "{" << h.s << (r.s.empty() ? "" : ",") << r.s << "}" << std::endl;
  }
};

inline std::vector<std::string> list(Scenario const &s, std::string const &key)
{
  std::vector<std::string> v;
  if (auto c = s.get_child_optional(key))
    for (auto const &e : *c)
      v.push_back(e.second.data());
  return v;
}
inline std::vector<double> dlist(Scenario const &s, std::string const &key)
{
  std::vector<double> v;
  for (auto const &e : list(s, key))
    v.push_back(std::stod(e));
  return v;
}
inline std::vector<long> ilist(Scenario const &s, std::string const &key)
{
  std::vector<long> v;
  for (auto const &e : list(s, key))
    v.push_back(std::stol(e));
  return v;
}
inline std::vector<std::vector<double>> dmat(Scenario const &s,
                                             std::string const &key)
{
  std::vector<std::vector<double>> m;
  if (auto c = s.get_child_optional(key))
    for (auto const &row : *c)
    {
      m.emplace_back();
      for (auto const &e : row.second)
        m.back().push_back(std::stod(e.second.data()));
    }
  return m;
}

// What kind of exception escaped: the class of outcome, not its wording.
inline std::string outcome_of(std::function<void()> const &f)
{
  try
  {
    f();
  }
  catch (std::exception const &e)
  {
    if (getenv("VH_DEBUG"))
      std::cerr << e.what() << std::endl;
    return "throw";
  }
  catch (...)
  {
    return "throw";
  }
  return "ok";
}

inline int run(int argc, char **argv,
               std::function<void(Scenario const &, Out &)> const &body)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(
      argc, argv, dealii::numbers::invalid_unsigned_int);
  int const rank = dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD);
  std::ifstream in(argv[1]);
  Out out;
  out.f.open(std::string(argv[2]) + "." + std::to_string(rank));
  std::string line;
  while (std::getline(in, line))
  {
    if (line.empty())
      continue;
    std::istringstream is(line);
    Scenario s;
    boost::property_tree::read_json(is, s);
    out.sc = s.get<std::string>("sc");
    body(s, out);
    out.put("done", Rec());
    MPI_Barrier(MPI_COMM_WORLD);
  }
  return 0;
}
} // namespace vh
#endif

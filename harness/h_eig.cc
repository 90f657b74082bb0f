// Runs the Lanczos solver on operators given as integer matrices.
#include "common.hpp"

#include <mfmg/common/exceptions.hpp>
#include <mfmg/common/lanczos.templates.hpp>

#include <deal.II/lac/vector.h>

#include <cstring>

using Vec = dealii::Vector<double>;

namespace
{
struct Op
{
  std::vector<std::vector<double>> a;
  double scale;
  mutable int count;
  size_t m() const { return a.size(); }
  size_t n() const { return a.size(); }
  void vmult(Vec &y, Vec const &x) const
  {
    ++count;
    for (unsigned int i = 0; i < a.size(); ++i)
    {
      double s = 0;
      for (unsigned int j = 0; j < a.size(); ++j)
        s += a[i][j] * x[j];
      y[i] = s / scale;
    }
  }
};

using Result = std::tuple<std::vector<double>, std::vector<Vec>>;

bool same(Result const &p, Result const &q)
{
  auto const &e = std::get<0>(p), &f = std::get<0>(q);
  auto const &u = std::get<1>(p), &v = std::get<1>(q);
  if (e.size() != f.size() || u.size() != v.size())
    return false;
  for (unsigned int i = 0; i < e.size(); ++i)
    if (std::memcmp(&e[i], &f[i], sizeof(double)))
      return false;
  for (unsigned int i = 0; i < u.size(); ++i)
  {
    if (u[i].size() != v[i].size())
      return false;
    if (std::memcmp(u[i].begin(), v[i].begin(), u[i].size() * sizeof(double)))
      return false;
  }
  return true;
}

void lanczos(vh::Scenario const &s, vh::Out &o)
{
  // the operator is mult * A / scale
  double const mult = s.get("mult", 1.);
  Op const op{vh::dmat(s, "A"), s.get<double>("scale", 1.) / mult, 0};
  auto const start = vh::dlist(s, "x");
  Vec x(start.size());
  std::copy(start.begin(), start.end(), x.begin());
  double const es = s.get<double>("es") / mult, vs = s.get<double>("vs");
  Result result, again;
  auto const go = [&](Result &r) {
    mfmg::Lanczos<Op, Vec> solver(op);
    r = solver.solve(s.get_child("params"), x);
  };
  vh::Rec r;
  r("how", vh::outcome_of([&]() { go(result); }));
  r("count", op.count);
  bool kept = true;
  for (unsigned int i = 0; i < start.size(); ++i)
    kept = kept && x[i] == start[i];
  r("kept", kept);
  vh::outcome_of([&]() { go(again); });
  r("same", same(result, again));
  std::vector<long> e;
  std::vector<std::vector<long>> v;
  for (auto d : std::get<0>(result))
    e.push_back(vh::fixed(d, es));
  for (auto const &w : std::get<1>(result))
  {
    v.emplace_back();
    for (auto d : w)
      v.back().push_back(vh::fixed(d, vs));
  }
  r("evals", e)("evecs", v);
  o.put("Lanczos", r);
}

// batches of vectors to deflate; then the projection and the deflated operator
void deflated(vh::Scenario const &s, vh::Out &o)
{
  Op const op{vh::dmat(s, "A"), s.get<double>("scale", 1.), 0};
  auto const vector = [](std::vector<double> const &l) {
    Vec v(l.size());
    std::copy(l.begin(), l.end(), v.begin());
    return v;
  };
  double const vs = s.get<double>("vs");
  auto const list = [&](Vec const &w) {
    std::vector<long> v;
    for (auto d : w)
      v.push_back(vh::fixed(d, vs));
    return v;
  };
  mfmg::DeflatedOperator<Op, Vec> d(op);
  std::vector<std::vector<long>> projected, applied;
  long m = d.m(), n = d.n();
  auto const how = vh::outcome_of([&]() {
    for (auto const &b : s.get_child("batches"))
    {
      std::vector<Vec> vecs;
      for (auto const &v : vh::dmat(b.second, "vecs"))
        vecs.push_back(vector(v));
      d.add_deflation_vecs(vecs);
      auto p = vector(vh::dlist(b.second, "x"));
      auto x = p;
      d.deflate(p);
      Vec y(p.size());
      d.vmult(y, x);
      projected.push_back(list(p));
      applied.push_back(list(y));
    }
  });
  o.put("Deflated", vh::Rec()("how", how)("m", m)("n", n)("projected", projected)(
                        "applied", applied));
}
} // namespace

int main(int argc, char **argv)
{
  return vh::run(argc, argv, [](vh::Scenario const &s, vh::Out &o) {
    if (s.count("batches"))
      deflated(s, o);
    else
      lanczos(s, o);
  });
}

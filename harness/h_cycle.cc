// Drives the real Hierarchy (setup and cycle) over operators, smoothers and
// coarse solvers made of small integer matrices, and records every call it
// makes on them together with the vectors it passes.
#include "common.hpp"

// the sections that are open can only be seen from inside
#define private public
#include <deal.II/base/timer.h>
#undef private

#include <mfmg/common/hierarchy.hpp>

#include <deal.II/lac/la_parallel_vector.h>

using V = dealii::LinearAlgebra::distributed::Vector<double>;
using Mat = std::vector<std::vector<double>>;

namespace
{
vh::Out *out = nullptr;
vh::Scenario const *sc = nullptr;
// the vectors are integers times this power of two
double unit = 1.;
// to watch the sections of a timer, with calls that fail
bool timing = false;
dealii::TimerOutput *watched = nullptr;
std::string fail_at;
int fail_after = 0;

std::vector<std::string> open_sections()
{
  if (!watched)
    return {};
  return {watched->active_sections.begin(), watched->active_sections.end()};
}
void record(std::string const &kind, vh::Rec r)
{
  if (timing)
    r("timed", watched != nullptr)("open", open_sections());
  out->put(kind, r);
  if (timing && kind == fail_at && fail_after-- == 0)
    throw std::runtime_error("this call fails");
}

std::vector<long> vec(V const &v)
{
  std::vector<long> r;
  for (unsigned int i = 0; i < v.size(); ++i)
    r.push_back(vh::exact(v(i) / unit));
  return r;
}
std::vector<std::vector<long>> mat(Mat const &m)
{
  std::vector<std::vector<long>> r;
  for (auto const &row : m)
  {
    r.emplace_back();
    for (double e : row)
      r.back().push_back(vh::exact(e));
  }
  return r;
}
std::vector<double> mul(Mat const &m, V const &x, bool trans)
{
  unsigned int const nr = m.size(), nc = m[0].size();
  std::vector<double> y(trans ? nc : nr, 0.);
  for (unsigned int i = 0; i < nr; ++i)
    for (unsigned int j = 0; j < nc; ++j)
      if (trans)
        y[j] += m[i][j] * x(i);
      else
        y[i] += m[i][j] * x(j);
  return y;
}
void assign(V &y, std::vector<double> const &v)
{
  if (y.size() != v.size())
    y.reinit(v.size());
  for (unsigned int i = 0; i < v.size(); ++i)
    y(i) = v[i];
}

class MockOp : public mfmg::Operator<V>
{
public:
  // kind: "A" level operator, "R" restrictor, "P" product
  MockOp(Mat m, std::string kind, int id)
      : m(std::move(m)), kind(std::move(kind)), id(id)
  {
  }
  void apply(V const &x, V &y,
             mfmg::OperatorMode mode =
                 mfmg::OperatorMode::NO_TRANS) const override
  {
    bool const trans = (mode == mfmg::OperatorMode::TRANS);
    assign(y, mul(m, x, trans));
    record(trans ? kind + "T" : kind,
           vh::Rec()("id", id)("in", vec(x))("out", vec(y)));
  }
  std::shared_ptr<mfmg::Operator<V>> transpose() const override
  {
    Mat t(m[0].size(), std::vector<double>(m.size()));
    for (unsigned int i = 0; i < m.size(); ++i)
      for (unsigned int j = 0; j < m[0].size(); ++j)
        t[j][i] = m[i][j];
    return std::make_shared<MockOp>(t, "P", id);
  }
  std::shared_ptr<mfmg::Operator<V>>
  multiply(std::shared_ptr<mfmg::Operator<V> const> b) const override
  {
    if (timing)
      record("Multiply", vh::Rec());
    return product(b);
  }
  std::shared_ptr<MockOp>
  product(std::shared_ptr<mfmg::Operator<V> const> b) const
  {
    auto const &o = dynamic_cast<MockOp const &>(*b);
    Mat r(m.size(), std::vector<double>(o.m[0].size(), 0.));
    for (unsigned int i = 0; i < m.size(); ++i)
      for (unsigned int j = 0; j < o.m[0].size(); ++j)
        for (unsigned int k = 0; k < o.m.size(); ++k)
          r[i][j] += m[i][k] * o.m[k][j];
    return std::make_shared<MockOp>(r, "A", -1);
  }
  std::shared_ptr<mfmg::Operator<V>>
  multiply_transpose(std::shared_ptr<mfmg::Operator<V> const> b) const override
  {
    if (timing)
      record("MultiplyT", vh::Rec());
    auto t = b->transpose();
    auto r = product(t);
    r->kind = "P";
    return r;
  }
  std::shared_ptr<V> build_domain_vector() const override
  {
    return garbage(m[0].size());
  }
  std::shared_ptr<V> build_range_vector() const override
  {
    return garbage(m.size());
  }
  size_t grid_complexity() const override { return m.size(); }
  size_t operator_complexity() const override { return m.size() * m[0].size(); }

  // nothing promises that a freshly built vector is zero
  static std::shared_ptr<V> garbage(unsigned int n)
  {
    auto v = std::make_shared<V>(n);
    for (unsigned int i = 0; i < n; ++i)
      (*v)(i) = unit * (1000 + 7 * i);
    return v;
  }

  Mat m;
  std::string kind;
  int id;
};

class MockSmoother : public mfmg::Smoother<V>
{
public:
  MockSmoother(std::shared_ptr<mfmg::Operator<V> const> op,
               std::shared_ptr<boost::property_tree::ptree const> p, Mat s,
               int id)
      : mfmg::Smoother<V>(op, p), a(std::dynamic_pointer_cast<MockOp const>(op)),
        s(std::move(s)), id(id)
  {
  }
  void apply(V const &b, V &x) const override
  {
    auto const before = vec(x);
    V r(x.size());
    auto const ax = mul(a->m, x, false);
    for (unsigned int i = 0; i < r.size(); ++i)
      r(i) = b(i) - ax[i];
    auto const d = mul(s, r, false);
    for (unsigned int i = 0; i < r.size(); ++i)
      x(i) += d[i];
    record("S", vh::Rec()("id", id)("b", vec(b))("x0", before)("x1", vec(x)));
  }
  std::shared_ptr<MockOp const> a;
  Mat s;
  int id;
};

class MockSolver : public mfmg::Solver<V>
{
public:
  MockSolver(std::shared_ptr<mfmg::Operator<V> const> op,
             std::shared_ptr<boost::property_tree::ptree const> p, Mat m,
             bool zero)
      : mfmg::Solver<V>(op, p), a(std::dynamic_pointer_cast<MockOp const>(op)),
        m(std::move(m)), zero(zero)
  {
  }
  // one step from the given x, or from zero when told to start there
  void apply(V const &b, V &x) const override
  {
    auto const before = vec(x);
    if (zero)
      x = 0.;
    V r(x.size());
    auto const ax = mul(a->m, x, false);
    for (unsigned int i = 0; i < r.size(); ++i)
      r(i) = b(i) - ax[i];
    auto const d = mul(m, r, false);
    for (unsigned int i = 0; i < r.size(); ++i)
      x(i) += d[i];
    record("C", vh::Rec()("b", vec(b))("x0", before)("x1", vec(x)));
  }
  std::shared_ptr<MockOp const> a;
  Mat m;
  bool zero;
};

Mat nth(std::string const &key, int i)
{
  auto const &c = sc->get_child(key);
  auto it = c.begin();
  std::advance(it, i);
  Mat r;
  for (auto const &row : it->second)
  {
    r.emplace_back();
    for (auto const &e : row.second)
      r.back().push_back(std::stod(e.second.data()));
  }
  return r;
}

class MockHelpers : public mfmg::HierarchyHelpers<V>
{
public:
  std::shared_ptr<mfmg::Operator<V>>
  get_global_operator(std::shared_ptr<mfmg::MeshEvaluator>) override
  {
    if (timing)
      record("Operator", vh::Rec());
    return std::make_shared<MockOp>(vh::dmat(*sc, "A"), "A", 0);
  }
  std::shared_ptr<mfmg::Operator<V>>
  build_restrictor(MPI_Comm, std::shared_ptr<mfmg::MeshEvaluator>,
                   std::shared_ptr<boost::property_tree::ptree const>) override
  {
    record("BuildR", vh::Rec()("id", n_r));
    int const id = n_r++;
    return std::make_shared<MockOp>(nth("R", id), "R", id);
  }
  std::shared_ptr<mfmg::Operator<V>> fast_multiply_transpose() override
  {
    record("BuildFast", vh::Rec()("id", n_f));
    int const id = n_f++;
    return std::make_shared<MockOp>(nth("P", id), "P", id);
  }
  std::shared_ptr<mfmg::Smoother<V>>
  build_smoother(std::shared_ptr<mfmg::Operator<V> const> op,
                 std::shared_ptr<boost::property_tree::ptree const> p) override
  {
    record("BuildS", vh::Rec()("id", n_s)(
                           "A", mat(dynamic_cast<MockOp const &>(*op).m)));
    int const id = n_s++;
    return std::make_shared<MockSmoother>(op, p, nth("S", id), id);
  }
  std::shared_ptr<mfmg::Solver<V>> build_coarse_solver(
      std::shared_ptr<mfmg::Operator<V> const> op,
      std::shared_ptr<boost::property_tree::ptree const> p) override
  {
    auto const z =
        p->get_optional<bool>("coarse.params.zero starting solution");
    record("BuildC",
             vh::Rec()("A", mat(dynamic_cast<MockOp const &>(*op).m))(
                 "zero", !z ? "unset" : *z ? "true" : "false"));
    return std::make_shared<MockSolver>(op, p, vh::dmat(*sc, "M"), z && *z);
  }
  int n_r = 0, n_s = 0, n_f = 0;
};

class MockEvaluator : public mfmg::MeshEvaluator
{
public:
  int get_dim() const override { return 2; }
  std::string get_mesh_evaluator_type() const override { return "Mock"; }
};
} // namespace

namespace mfmg
{
template <>
std::unique_ptr<HierarchyHelpers<V>>
create_hierarchy_helpers<V>(std::shared_ptr<MeshEvaluator const>)
{
  return std::unique_ptr<HierarchyHelpers<V>>(new MockHelpers());
}
} // namespace mfmg

namespace
{
// hierarchies that share a timer, built and applied with calls that fail
void watch(vh::Scenario const &s,
           std::shared_ptr<boost::property_tree::ptree> params,
           std::ostringstream &sink)
{
  timing = true;
  for (bool const timed : {false, true})
  {
    std::shared_ptr<dealii::TimerOutput> timer;
    if (timed)
      timer = std::make_shared<dealii::TimerOutput>(
          sink, dealii::TimerOutput::never, dealii::TimerOutput::wall_times);
    watched = timer.get();
    auto after = [&](std::string const &what, std::string const &how,
                     V const *x) {
      std::vector<std::pair<std::string, long>> calls;
      if (timer)
        for (auto const &c :
             timer->get_summary_data(dealii::TimerOutput::n_calls))
          calls.push_back({c.first, std::lround(c.second)});
      fail_at.clear();
      record(what, vh::Rec()("how", how)("calls", calls)(
                       "x", x ? vec(*x) : std::vector<long>()));
    };
    for (auto const &a : s.get_child("attempts"))
    {
      auto own = std::make_shared<boost::property_tree::ptree>(*params);
      if (auto l = a.second.get_optional<int>("levels"))
        own->put("max levels", *l);
      fail_at = a.second.get<std::string>("at", "");
      fail_after = a.second.get("after", 0);
      std::unique_ptr<mfmg::Hierarchy<V>> h;
      std::string how = vh::outcome_of([&]() {
        h = std::make_unique<mfmg::Hierarchy<V>>(
            MPI_COMM_WORLD, std::make_shared<MockEvaluator>(), own, timer);
      });
      after("Setup", how, nullptr);
      if (!h)
        continue;
      for (auto const &c : s.get_child("calls"))
      {
        auto const b = vh::dlist(c.second, "b"), x = vh::dlist(c.second, "x");
        V vb(b.size()), vx(x.size());
        assign(vb, b);
        assign(vx, x);
        fail_at = a.second.get<std::string>("then", "");
        fail_after = a.second.get("skip", 0);
        how = vh::outcome_of([&]() { h->vmult(vx, vb); });
        after("Apply", how, how == "ok" ? &vx : nullptr);
      }
    }
    watched = nullptr;
  }
}
} // namespace

int main(int argc, char **argv)
{
  return vh::run(argc, argv, [](vh::Scenario const &s, vh::Out &o) {
    out = &o;
    sc = &s;
    unit = std::ldexp(1., s.get("up", 0));
    auto params = std::make_shared<boost::property_tree::ptree>();
    if (auto c = s.get_child_optional("params"))
      for (auto const &e : *c)
        params->put(boost::property_tree::ptree::path_type(e.first, '/'),
                    e.second.data());
    if (auto c = s.get_child_optional("params"))
    {
      params->clear();
      for (auto const &e : *c)
        params->put(e.first, e.second.data());
    }
    std::ostringstream sink;
    if (s.get_child_optional("attempts"))
      return watch(s, params, sink);
    std::shared_ptr<dealii::TimerOutput> timer;
    if (s.get("timer", 0))
      timer = std::make_shared<dealii::TimerOutput>(
          sink, dealii::TimerOutput::never, dealii::TimerOutput::wall_times);
    auto evaluator = std::make_shared<MockEvaluator>();
    o.put("Begin", vh::Rec());
    std::string const how = vh::outcome_of([&]() {
      mfmg::Hierarchy<V> h(MPI_COMM_WORLD, evaluator, params, timer);
      o.put("Built", vh::Rec());
      auto const &calls = s.get_child("calls");
      for (auto const &c : calls)
      {
        auto const b = vh::dlist(c.second, "b"), x = vh::dlist(c.second, "x");
        V vb(b.size()), vx(x.size());
        for (unsigned int i = 0; i < b.size(); ++i)
        {
          vb(i) = unit * b[i];
          vx(i) = unit * x[i];
        }
        o.put("Call", vh::Rec()("b", vec(vb))("x", vec(vx)));
        h.vmult(vx, vb);
        o.put("Ret", vh::Rec()("b", vec(vb))("x", vec(vx)));
      }
    });
    o.put("End", vh::Rec()("how", how));
  });
}

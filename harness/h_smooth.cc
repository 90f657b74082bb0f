// Smoothing steps and coarse solves on integer matrices spread over the
// processors.
#include "problem.hpp"

#include <mfmg/dealii/dealii_matrix_free_operator.hpp>
#include <mfmg/dealii/dealii_matrix_free_smoother.hpp>
#include <mfmg/dealii/dealii_smoother.hpp>
#include <mfmg/dealii/dealii_solver.hpp>
#include <mfmg/dealii/dealii_trilinos_matrix_operator.hpp>

using vh::TM;
using vh::V;
using MatOp = mfmg::DealIITrilinosMatrixOperator<V>;
using FreeOp = mfmg::DealIIMatrixFreeOperator<2, V>;

namespace
{
struct Wrap : public mfmg::DealIIMatrixFreeMeshEvaluator<2>
{
  Wrap(vh::Problem<2> &p, std::shared_ptr<TM const> m)
      : mfmg::DealIIMatrixFreeMeshEvaluator<2>(*p.dh, p.constraints), m_(m)
  {
  }
  void matrix_free_evaluate_global(V const &src, V &dst) const override
  {
    m_->vmult(dst, src);
  }
  std::shared_ptr<dealii::DiagonalMatrix<V>>
  matrix_free_get_diagonal_inverse() const override
  {
    auto r = std::make_shared<dealii::DiagonalMatrix<V>>();
    V v(m_->locally_owned_range_indices(), MPI_COMM_WORLD);
    for (auto i : m_->locally_owned_range_indices())
      v[i] = 1. / m_->diag_element(i);
    r->reinit(v);
    return r;
  }
  std::shared_ptr<TM const> m_;
};

void body(vh::Scenario const &s, vh::Out &o)
{
  unsigned int const rank =
      dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD);
  bool const free = s.get("free", 0), solver = s.get("solver", 0);
  double const scale = s.get("scale", 16384.);
  // everything the code sees is the integers times powers of two
  double const xu = std::ldexp(1., s.get("xup", 0)),
               au = std::ldexp(1., s.get("aup", 0));
  std::unique_ptr<vh::Problem<2>> problem;
  dealii::IndexSet own;
  if (free)
  {
    problem = std::make_unique<vh::Problem<2>>(s);
    own = problem->dh->locally_owned_dofs();
  }
  else
  {
    auto const sizes = vh::dlist(s, "space");
    long first = 0, n = 0, all = 0;
    for (unsigned int p = 0; p < sizes.size(); ++p)
    {
      if (p < rank)
        first += sizes[p];
      if (p == rank)
        n = sizes[p];
      all += sizes[p];
    }
    own = dealii::IndexSet(all);
    own.add_range(first, first + n);
    own.compress();
  }
  auto m = std::make_shared<TM>(own, own, MPI_COMM_WORLD);
  for (auto const &x : vh::dmat(s, "entries"))
    if (own.is_element(x[0]))
      m->set(x[0], x[1], x[2] * au);
  m->compress(dealii::VectorOperation::insert);
  std::vector<long> ids;
  for (auto i : own)
    ids.push_back(i);
  o.put("System", vh::Rec()("own", ids)("A", vh::rows_of(*m, 1. / au, true)));

  auto params = std::make_shared<boost::property_tree::ptree>(
      vh::params_of(s, "params"));
  auto op = std::make_shared<MatOp>(m);
  std::shared_ptr<FreeOp> fop;
  if (free)
    fop = std::make_shared<FreeOp>(std::make_shared<Wrap>(*problem, m));
  std::unique_ptr<mfmg::Smoother<V>> sm;
  std::unique_ptr<mfmg::Solver<V>> so;
  std::string const how = vh::outcome_of([&]() {
    if (solver)
      so = std::make_unique<mfmg::DealIISolver<V>>(op, params);
    else if (free)
      sm = std::make_unique<mfmg::DealIIMatrixFreeSmoother<2, V>>(fop, params);
    else
      sm = std::make_unique<mfmg::DealIISmoother<V>>(op, params);
  });
  o.put("Built", vh::Rec()("how", how));
  if (how != "ok")
    return;
  auto vec = [&](std::vector<double> const &x, double f) {
    V v(own, MPI_COMM_WORLD);
    for (auto i : own)
      v[i] = x[i] * f;
    return v;
  };
  auto put = [&](V const &v, double f, bool is_exact) {
    std::vector<long> r;
    for (auto i : own)
      r.push_back(is_exact ? vh::exact(v[i], f) : vh::fixed(v[i], f));
    return r;
  };
  V last = vec(std::vector<double>(own.size(), 0.), 1.);
  for (auto const &c : s.get_child("steps"))
  {
    V const b = vec(vh::dlist(c.second, "b"), au * xu), b0(b);
    bool const go_on = c.second.get("on", 0); // from where the last one ended
    V x = go_on ? last : vec(vh::dlist(c.second, "x"), xu);
    V const x0(x);
    vh::Rec r;
    r("how", vh::outcome_of([&]() {
        if (so)
          so->apply(b, x);
        else
          sm->apply(b, x);
      }));
    r("b", put(b0, 1. / (au * xu), true))("x", put(x0, 1. / xu, true))(
        "y", put(x, scale / xu, !free && !solver));
    bool same = true;
    for (auto i : own)
      same = same && b[i] == b0[i];
    r("same", same);
    last = x;
    o.put("Step", r);
  }
}
} // namespace

int main(int argc, char **argv) { return vh::run(argc, argv, body); }

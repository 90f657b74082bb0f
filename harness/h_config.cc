// Sets up hierarchies from configurations of every kind, and calls operations on
// objects of every kind, and records which of it ended in an exception.
#include "problem.hpp"

#include <mfmg/common/hierarchy.hpp>
#include <mfmg/common/lanczos.hpp>
#include <mfmg/dealii/amge_host.hpp>
#include <mfmg/dealii/dealii_matrix_free_operator.hpp>
#include <mfmg/dealii/dealii_matrix_free_smoother.hpp>
#include <mfmg/dealii/dealii_matrix_operator.hpp>
#include <mfmg/dealii/dealii_smoother.hpp>
#include <mfmg/dealii/dealii_solver.hpp>
#include <mfmg/dealii/dealii_trilinos_matrix_operator.hpp>

#include <functional>

using vh::TM;
using vh::V;
using Op = mfmg::Operator<V>;
using Params = boost::property_tree::ptree;
using vh::outcome_of;

namespace
{
// calls itself something the library has never heard of
template <int dim>
class Stranger : public vh::MatrixEvaluator<dim>
{
public:
  using vh::MatrixEvaluator<dim>::MatrixEvaluator;
  std::string get_mesh_evaluator_type() const override { return name; }
  std::string name = "StrangeMeshEvaluator";
};
// a mesh evaluator of a dimension the library does not have
class Flat : public mfmg::MeshEvaluator
{
public:
  Flat(std::string const &n) : name(n) {}
  int get_dim() const override { return 1; }
  std::string get_mesh_evaluator_type() const override { return name; }
  std::string name;
};
// an evaluator without anything in it
template <int dim>
class Empty : public mfmg::DealIIMeshEvaluator<dim>
{
public:
  using mfmg::DealIIMeshEvaluator<dim>::DealIIMeshEvaluator;
};
template <int dim>
class EmptyFree : public mfmg::DealIIMatrixFreeMeshEvaluator<dim>
{
public:
  using mfmg::DealIIMatrixFreeMeshEvaluator<dim>::DealIIMatrixFreeMeshEvaluator;
};
class NoHelpers : public mfmg::HierarchyHelpers<V>
{
public:
  std::shared_ptr<Op>
  get_global_operator(std::shared_ptr<mfmg::MeshEvaluator>) override
  {
    return nullptr;
  }
  std::shared_ptr<Op> build_restrictor(MPI_Comm,
                                       std::shared_ptr<mfmg::MeshEvaluator>,
                                       std::shared_ptr<Params const>) override
  {
    return nullptr;
  }
  std::shared_ptr<mfmg::Smoother<V>>
  build_smoother(std::shared_ptr<Op const>,
                 std::shared_ptr<Params const>) override
  {
    return nullptr;
  }
  std::shared_ptr<mfmg::Solver<V>>
  build_coarse_solver(std::shared_ptr<Op const>,
                      std::shared_ptr<Params const>) override
  {
    return nullptr;
  }
};
using SV = dealii::Vector<double>;
// DealIIMatrixOperator leaves two functions to its heirs
class Serial : public mfmg::DealIIMatrixOperator<SV>
{
public:
  using mfmg::DealIIMatrixOperator<SV>::DealIIMatrixOperator;
  using mfmg::DealIIMatrixOperator<SV>::multiply_transpose;
  std::shared_ptr<mfmg::Operator<SV>> transpose() const override
  {
    return nullptr;
  }
  std::shared_ptr<mfmg::Operator<SV>>
  multiply(std::shared_ptr<mfmg::Operator<SV> const>) const override
  {
    return nullptr;
  }
};

template <int dim>
void setup(vh::Scenario const &s, vh::Out &o)
{
  vh::Problem<dim> p(s);
  auto params = std::make_shared<Params>(vh::params_of(s, "params"));
  for (auto const &e : vh::list(s, "sections")) // sections without content
    if (!params->get_child_optional(e))
      params->put_child(e, Params());
  std::string const kind = s.get<std::string>("evaluator");
  std::shared_ptr<mfmg::MeshEvaluator> evaluator;
  if (kind == "matrix")
    evaluator = std::make_shared<vh::MatrixEvaluator<dim>>(p);
  else if (kind == "free")
    evaluator = std::make_shared<vh::FreeEvaluator<dim>>(p);
  else if (kind == "stranger")
    evaluator = std::make_shared<Stranger<dim>>(p);
  else if (kind == "flat")
    evaluator = std::make_shared<Flat>("DealIIMeshEvaluator");
  else if (kind == "flat free")
    evaluator = std::make_shared<Flat>("DealIIMatrixFreeMeshEvaluator");
  if (s.get("no params", 0))
    params = nullptr;
  std::unique_ptr<mfmg::Hierarchy<V>> h;
  std::string how = outcome_of([&]() {
    h = std::make_unique<mfmg::Hierarchy<V>>(MPI_COMM_WORLD, evaluator, params);
  });
  bool sane = true;
  if (how == "ok")
    how = outcome_of([&]() {
      V b(p.dh->locally_owned_dofs(), MPI_COMM_WORLD), x(b);
      for (auto i : p.dh->locally_owned_dofs())
        b[i] = 1. + i % 3;
      h->vmult(x, b);
      sane = std::isfinite(x.l2_norm()) && x.l2_norm() > 0.;
    });
  o.put("Setup", vh::Rec()("outcome", how)("sane", sane));
}

template <int dim>
void call(vh::Scenario const &s, vh::Out &o)
{
  vh::Problem<dim> p(s);
  std::string const on = s.get<std::string>("on"), what = s.get<std::string>("call");
  auto matrix = std::make_shared<TM>();
  p.global(*matrix);
  auto op = std::make_shared<mfmg::DealIITrilinosMatrixOperator<V>>(matrix);
  auto evaluator = std::make_shared<vh::FreeEvaluator<dim>>(p);
  auto free =
      std::make_shared<mfmg::DealIIMatrixFreeOperator<dim, V>>(evaluator);
  // a matrix of other sizes
  auto small = std::make_shared<TM>(3u, 2u, 2u);
  small->set(0, 0, 1.);
  small->set(2, 1, 1.);
  small->compress(dealii::VectorOperation::insert);
  auto odd = std::make_shared<mfmg::DealIITrilinosMatrixOperator<V>>(small);
  auto params = std::make_shared<Params>();
  V x(p.dh->locally_owned_dofs(), MPI_COMM_WORLD), y(x);
  x = 1.;
  std::map<std::string, std::function<void()>> calls;
  auto operations = [&](std::shared_ptr<Op const> a, std::string const &n) {
    calls[n + " apply"] = [&, a]() { a->apply(x, y); };
    calls[n + " apply transposed"] = [&, a]() {
      a->apply(x, y, mfmg::OperatorMode::TRANS);
    };
    calls[n + " transpose"] = [&, a]() { a->transpose(); };
    calls[n + " times matrix"] = [&, a]() { a->multiply(op); };
    calls[n + " times free"] = [&, a]() { a->multiply(free); };
    calls[n + " times odd"] = [&, a]() { a->multiply(odd); };
    calls[n + " times transposed matrix"] = [&, a]() {
      a->multiply_transpose(op);
    };
    calls[n + " times transposed free"] = [&, a]() {
      a->multiply_transpose(free);
    };
    calls[n + " times transposed odd"] = [&, a]() {
      a->multiply_transpose(odd);
    };
    calls[n + " domain vector"] = [&, a]() { a->build_domain_vector(); };
    calls[n + " range vector"] = [&, a]() { a->build_range_vector(); };
    calls[n + " grid complexity"] = [&, a]() { a->grid_complexity(); };
    calls[n + " operator complexity"] = [&, a]() { a->operator_complexity(); };
    calls[n + " smoother"] = [&, a]() {
      mfmg::DealIISmoother<V> t(a, params);
      t.apply(x, y);
    };
    calls[n + " free smoother"] = [&, a]() {
      mfmg::DealIIMatrixFreeSmoother<dim, V> t(a, params);
      t.apply(x, y);
    };
    calls[n + " solver"] = [&, a]() {
      mfmg::DealIISolver<V> t(a, params);
      t.apply(x, y);
    };
  };
  operations(op, "matrix");
  operations(free, "free");
  auto sp = std::make_shared<dealii::SparsityPattern>();
  dealii::DynamicSparsityPattern dsp(2, 2);
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j)
      dsp.add(i, j);
  sp->copy_from(dsp);
  auto sm = std::make_shared<dealii::SparseMatrix<double>>(*sp);
  auto serial = std::make_shared<Serial>(sp, sm);
  calls["serial times transposed"] = [&]() {
    serial->multiply_transpose(nullptr);
  };
  Empty<dim> e(*p.dh, p.constraints);
  EmptyFree<dim> f(*p.dh, p.constraints);
  TM m;
  dealii::AffineConstraints<double> c;
  dealii::SparsityPattern lsp;
  dealii::SparseMatrix<double> lm;
  dealii::DoFHandler<dim> d(*p.tria);
  dealii::Vector<double> u(4), v(4);
  calls["evaluator global"] = [&]() { e.evaluate_global(*p.dh, c, m); };
  calls["evaluator agglomerate"] = [&]() {
    e.evaluate_agglomerate(d, c, lsp, lm);
  };
  calls["evaluator diagonal"] = [&]() { e.get_diagonal(); };
  calls["free evaluator clone"] = [&]() { f.clone(); };
  calls["free evaluator initialize"] = [&]() {
    f.matrix_free_initialize_agglomerate(d);
  };
  calls["free evaluator agglomerate"] = [&]() {
    f.matrix_free_evaluate_agglomerate(u, v);
  };
  calls["free evaluator agglomerate diagonal"] = [&]() {
    f.matrix_free_get_agglomerate_diagonal(c);
  };
  calls["free evaluator global"] = [&]() { f.matrix_free_evaluate_global(x, y); };
  calls["free evaluator inverse diagonal"] = [&]() {
    f.matrix_free_get_diagonal_inverse();
  };
  calls["free evaluator diagonal"] = [&]() { f.get_diagonal(); };
  NoHelpers h;
  calls["helpers fast product"] = [&]() { h.fast_multiply_transpose(); };
  auto const it = calls.find(on + " " + what);
  o.put("Call", vh::Rec()("outcome", it == calls.end() ? "no such call"
                                                       : outcome_of(it->second)));
}
} // namespace

int main(int argc, char **argv)
{
  return vh::run(argc, argv, [](vh::Scenario const &s, vh::Out &o) {
    bool const two = s.get("dim", 2) == 2;
    if (s.get_child_optional("call"))
      two ? call<2>(s, o) : call<3>(s, o);
    else
      two ? setup<2>(s, o) : setup<3>(s, o);
  });
}

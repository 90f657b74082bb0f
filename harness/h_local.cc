// Computes the eigenpairs of agglomerates whose matrices are given.
#include "mesh.hpp"

#include <mfmg/dealii/amge_host.templates.hpp>
#include <mfmg/dealii/dealii_matrix_free_mesh_evaluator.hpp>
#include <mfmg/dealii/dealii_mesh_evaluator.hpp>

#include <deal.II/dofs/dof_accessor.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/lac/sparse_matrix.h>

using V = dealii::LinearAlgebra::distributed::Vector<double>;

namespace
{
struct Given
{
  std::vector<std::vector<double>> a;
  double scale;
  std::vector<long> fixed;
  void constrain(dealii::AffineConstraints<double> &c) const
  {
    c.clear();
    for (auto i : fixed)
      c.add_line(i);
    c.close();
  }
  void matrix(dealii::SparsityPattern &sp,
              dealii::SparseMatrix<double> &m) const
  {
    dealii::DynamicSparsityPattern dsp(a.size(), a.size());
    for (unsigned int i = 0; i < a.size(); ++i)
      for (unsigned int j = 0; j < a.size(); ++j)
        if (i == j || a[i][j] != 0)
          dsp.add(i, j);
    sp.copy_from(dsp);
    m.reinit(sp);
    for (unsigned int i = 0; i < a.size(); ++i)
      for (unsigned int j = 0; j < a.size(); ++j)
        if (a[i][j] != 0)
          m.set(i, j, a[i][j] / scale);
  }
};

class MatEval : public mfmg::DealIIMeshEvaluator<2>
{
public:
  MatEval(dealii::DoFHandler<2> &d, dealii::AffineConstraints<double> &c,
          Given const &g)
      : mfmg::DealIIMeshEvaluator<2>(d, c), g(g)
  {
  }
  void evaluate_agglomerate(dealii::DoFHandler<2> &d,
                            dealii::AffineConstraints<double> &c,
                            dealii::SparsityPattern &sp,
                            dealii::SparseMatrix<double> &m) const override
  {
    d.distribute_dofs(fe);
    g.constrain(c);
    g.matrix(sp, m);
  }
  Given const &g;
  dealii::FE_Q<2> fe{1};
};

class FreeEval : public mfmg::DealIIMatrixFreeMeshEvaluator<2>
{
public:
  FreeEval(dealii::DoFHandler<2> &d, dealii::AffineConstraints<double> &c,
           Given const &g)
      : mfmg::DealIIMatrixFreeMeshEvaluator<2>(d, c), d(d), c(c), g(g)
  {
  }
  FreeEval(FreeEval const &o)
      : mfmg::DealIIMatrixFreeMeshEvaluator<2>(o.d, o.c), d(o.d), c(o.c), g(o.g)
  {
  }
  std::unique_ptr<mfmg::DealIIMatrixFreeMeshEvaluator<2>> clone() const override
  {
    return std::make_unique<FreeEval>(*this);
  }
  void matrix_free_initialize_agglomerate(
      dealii::DoFHandler<2> &dh) const override
  {
    dh.distribute_dofs(fe);
    m.clear();
    g.matrix(sp, m);
  }
  void matrix_free_evaluate_agglomerate(
      dealii::Vector<double> const &src,
      dealii::Vector<double> &dst) const override
  {
    m.vmult(dst, src);
  }
  std::vector<double> matrix_free_get_agglomerate_diagonal(
      dealii::AffineConstraints<double> &ac) const override
  {
    g.constrain(ac);
    std::vector<double> r(m.m());
    for (unsigned int i = 0; i < r.size(); ++i)
      r[i] = m.diag_element(i);
    return r;
  }
  dealii::DoFHandler<2> &d;
  dealii::AffineConstraints<double> &c;
  Given const &g;
  dealii::FE_Q<2> fe{1};
  mutable dealii::SparsityPattern sp;
  mutable dealii::SparseMatrix<double> m;
};

template <typename Eval, typename Base>
void local(vh::Scenario const &s, vh::Out &o)
{
  // the agglomerates share what one thread keeps between them
  mfmg::LobpcgScratchData scratch;
  for (auto const &entry : s.get_child("agglomerates"))
  {
    auto const &c = entry.second;
    Given g{vh::dmat(c, "A"), c.get<double>("scale"),
            vh::ilist(c, "fixed")};
    auto tria = vh::make_mesh<2>(c.get_child("mesh"));
    dealii::FE_Q<2> fe(1);
    dealii::DoFHandler<2> dh(*tria);
    dh.distribute_dofs(fe);
    dealii::AffineConstraints<double> constraints;
    Eval evaluator(dh, constraints, g);
    std::map<typename dealii::Triangulation<2>::active_cell_iterator,
             typename dealii::DoFHandler<2>::active_cell_iterator>
        map;
    for (auto cell : dh.active_cell_iterators())
      map[cell] = cell;
    std::vector<std::complex<double>> evals;
    std::vector<dealii::Vector<double>> evecs;
    std::vector<double> diag;
    std::vector<dealii::types::global_dof_index> ids;
    vh::Rec r;
    r("how", vh::outcome_of([&]() {
        mfmg::AMGe_host<2, Base, V> amge(MPI_COMM_WORLD, dh,
                                         s.get_child("eigensolver"));
        std::tie(evals, evecs, diag, ids) = amge.compute_local_eigenvectors(
            s.get<unsigned int>("want"), s.get<double>("tolerance"), *tria, map,
            static_cast<Base const &>(evaluator), scratch);
        if (s.get("eigensolver.use_initial_guess", false))
          scratch.lobpcg_init_guess = evecs;
      }));
    double const es = s.get<double>("es"), vs = s.get<double>("vs");
    std::vector<long> e, im, dg, id(ids.begin(), ids.end());
    std::vector<std::vector<long>> v;
    for (auto x : evals)
    {
      e.push_back(vh::fixed(x.real(), es));
      im.push_back(vh::fixed(x.imag(), es));
    }
    for (auto const &w : evecs)
    {
      v.emplace_back();
      for (auto x : w)
        v.back().push_back(vh::fixed(x, vs));
    }
    for (auto x : diag)
      dg.push_back(vh::exact(x, g.scale));
    r("evals", e)("im", im)("evecs", v)("diag", dg)("ids", id);
    o.put("Local", r);
  }
}
} // namespace

int main(int argc, char **argv)
{
  return vh::run(argc, argv, [](vh::Scenario const &s, vh::Out &o) {
    if (s.get("free", 0))
      local<FreeEval, mfmg::DealIIMatrixFreeMeshEvaluator<2>>(s, o);
    else
      local<MatEval, mfmg::DealIIMeshEvaluator<2>>(s, o);
  });
}

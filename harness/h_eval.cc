// What the mesh evaluators hand out by themselves: initial guesses, diagonals,
// range vectors.
#include "mesh.hpp"

#include <mfmg/dealii/dealii_matrix_free_mesh_evaluator.hpp>
#include <mfmg/dealii/dealii_mesh_evaluator.hpp>

#include <deal.II/dofs/dof_tools.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>
#include <deal.II/lac/trilinos_sparsity_pattern.h>

namespace
{
using V = dealii::LinearAlgebra::distributed::Vector<double>;

template <int dim>
class Eval : public mfmg::DealIIMeshEvaluator<dim>
{
public:
  using mfmg::DealIIMeshEvaluator<dim>::DealIIMeshEvaluator;
  void
  evaluate_global(dealii::DoFHandler<dim> &dh,
                  dealii::AffineConstraints<double> &c,
                  dealii::TrilinosWrappers::SparseMatrix &m) const override
  {
    dealii::IndexSet relevant;
    dealii::DoFTools::extract_locally_relevant_dofs(dh, relevant);
    dealii::TrilinosWrappers::SparsityPattern sp(dh.locally_owned_dofs(),
                                                 dh.locally_owned_dofs(),
                                                 relevant, MPI_COMM_WORLD);
    dealii::DoFTools::make_sparsity_pattern(
        dh, sp, c, false,
        dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD));
    sp.compress();
    m.reinit(sp);
    for (auto row : dh.locally_owned_dofs())
      for (auto it = m.begin(row); it != m.end(row); ++it)
        m.set(row, it->column(),
              row == it->column() ? diag[row % diag.size()] : 977.);
    m.compress(dealii::VectorOperation::insert);
  }
  std::vector<long> diag;
};

template <int dim>
void global(vh::Scenario const &s, vh::Out &o)
{
  auto tria = vh::make_mesh<dim>(s.get_child("mesh"));
  dealii::FE_Q<dim> fe(s.get("degree", 1));
  dealii::DoFHandler<dim> dh(*tria);
  dh.distribute_dofs(fe);
  dealii::AffineConstraints<double> c;
  dealii::IndexSet relevant;
  dealii::DoFTools::extract_locally_relevant_dofs(dh, relevant);
  c.reinit(relevant);
  c.close();
  auto const list = [](dealii::IndexSet const &is) {
    std::vector<long> r;
    for (auto i : is)
      r.push_back(i);
    return r;
  };
  Eval<dim> e(dh, c);
  for (auto const &round : s.get_child("rounds"))
  {
    e.diag = vh::ilist(round.second, "d");
    V v = e.get_diagonal();
    std::vector<long> values, where;
    // whatever the vector says it has
    for (auto i : relevant)
      if (v.in_local_range(i) || v.get_partitioner()->is_ghost_entry(i))
      {
        where.push_back(i);
        values.push_back(vh::exact(v(i), 1.));
      }
    o.put("Diagonal", vh::Rec()("n", long(dh.n_dofs()))("size", long(v.size()))(
                          "owned", list(dh.locally_owned_dofs()))(
                          "mine", list(v.locally_owned_elements()))(
                          "relevant", list(relevant))("where", where)("values",
                                                                      values));
  }
  mfmg::DealIIMatrixFreeMeshEvaluator<dim> f(dh, c);
  auto const r = f.build_range_vector();
  long zero = 0;
  for (unsigned int i = 0; i < r->local_size(); ++i)
    zero += r->local_element(i) != 0;
  o.put("Range", vh::Rec()("n", long(dh.n_dofs()))("size", long(r->size()))(
                     "owned", list(dh.locally_owned_dofs()))(
                     "mine", list(r->locally_owned_elements()))("m", long(f.m()))(
                     "nonzero", zero)("dim", f.get_dim()));
}

void guess(vh::Scenario const &s, vh::Out &o)
{
  std::vector<dealii::Vector<double>> before;
  for (auto const &g : s.get_child("guesses"))
  {
    auto const &p = g.second;
    dealii::AffineConstraints<double> c;
    auto const fixed = vh::ilist(p, "fixed");
    long const n = p.get<long>("n");
    for (auto i : fixed)
    {
      c.add_line(i);
      // hanging nodes and given values are constrained as well
      if (p.get("kind", 0) == 1)
        c.add_entry(i, p.get<long>("master"), .5);
      else if (p.get("kind", 0) == 2)
        c.set_inhomogeneity(i, 3.);
    }
    c.close();
    dealii::Vector<double> x(n);
    for (auto &v : x)
      v = p.get<double>("garbage");
    if (p.get("free", 0))
      mfmg::DealIIMatrixFreeMeshEvaluator<2>::set_initial_guess(c, x);
    else
      mfmg::DealIIMeshEvaluator<2>::set_initial_guess(c, x);
    std::vector<long> zero, inside, other;
    for (long i = 0; i < long(x.size()); ++i)
      (x[i] == 0. ? zero : x[i] > 0. && x[i] < 1. ? inside : other).push_back(i);
    // the earlier guesses that are equal to this one
    std::vector<long> same;
    for (unsigned int k = 0; k < before.size(); ++k)
      if (before[k].size() == x.size() &&
          std::equal(x.begin(), x.end(), before[k].begin()))
        same.push_back(k + 1);
    before.push_back(x);
    o.put("Guess", vh::Rec()("n", n)("fixed", fixed)("zero", zero)(
                       "inside", inside)("other", other)("same", same));
  }
}
} // namespace

int main(int argc, char **argv)
{
  return vh::run(argc, argv, [](vh::Scenario const &s, vh::Out &o) {
    if (s.count("guesses"))
      guess(s, o);
    else if (s.get("dim", 2) == 2)
      global<2>(s, o);
    else
      global<3>(s, o);
  });
}
